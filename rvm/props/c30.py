"""C30 the answer of an engine or a learner depends only on its inputs, never on what it was asked before."""
import numpy as np

from .. import gen
from ..core import Violation
from ..emref import loglik, refbn_of
from ..obs import snap_df, snap_factor, snap_model, table

ID = "C30"
CASES = {"quick": 480, "thorough": 16000}
NEED = {"posterior": 90, "data": 120, "causal": 80, "counterfactual": 80, "causation": 30, "multi": 25, "em_rerun": 40, "em_resumed": 18, "gradient_rerun": 10, "aggregator_reset": 15, "engine_recompiled": 15,
        "refused_between": 100, "two_engines": 60, "compiled_runs": 80, "kept_results": 900, "repeated": 100, "run_after_refusal": 30, "own_list": 18, "conditional": 60, "neighbouring": 160}
RULE = ("engines (variable elimination on networks, frequencies from data, causal, counterfactual and multi-model engines) asked random sequences of 6-12 different queries, with ill-formed queries in "
        "between, with compile and run called separately, and with a second engine on the same model in between; every answer must be that of a new engine, every earlier result must stay as it was, and earlier queries "
        "repeated later must give the same. Learners run again with other data, resumed step by step, reset or compiled again must give what a new learner (seeded alike) gives. "
        "Distinct = (engine, sequence of query kinds).")
ASSUMPTIONS = ["models and data are not changed by the caller in between", "1e-9 for answers, 1e-7 for learnt parameters"]


def eq(ctx, a, b, what, tol=1e-9):
    if np.isscalar(a) and np.isscalar(b):
        ctx.check(abs(a - b) <= tol or (a != a and b != b), f"{what}: {a} instead of {b}")
        return
    if isinstance(a, (list, tuple)):
        ctx.check(isinstance(b, (list, tuple)) and len(a) == len(b), f"{what}: {a} instead of {b}")
        for x, y in zip(a, b):
            eq(ctx, x, y, what, tol)
        return
    ta, tb = tabs(a), tabs(b)
    for x, y in zip(ta, tb):
        ctx.check(set(x.vars) == set(y.vars) and {v: sorted(map(repr, d)) for v, d in x.doms.items()} == {v: sorted(map(repr, d)) for v, d in y.doms.items()}, f"{what}: over {x.doms} instead of {y.doms}")
        ctx.check(np.allclose(x.aligned(y.doms), y.a, atol=tol, rtol=1e-9, equal_nan=True), f"{what}: {x.a.tolist()} instead of {y.a.tolist()}")


def tabs(f):
    if hasattr(f, "store_low"):
        from .c16 import bounds
        return list(bounds(f))
    return [table(f)]


def frozen(r):
    if isinstance(r, (list, tuple)):
        return [frozen(x) for x in r]
    return r if np.isscalar(r) else [(t.doms, t.a.tolist()) for t in tabs(r)]


def same_models(ctx, a, b, vs, what, tol=1e-7):
    for v in vs:
        eq(ctx, a.factors[v], b.factors[v], f"{what}: factor of {v}", tol)


def neighbours(rng, doms, a, keep=()):
    """Assignments that resemble the assignment a: another state, another variable in the same state, states swapped, other order, fewer."""
    out, ks = [], list(a)
    free = [v for v in doms if v not in a and v not in keep]
    for v in ks:
        if v not in doms:
            continue
        out += [{**a, v: s} for s in doms[v] if s != a[v]][:2]
        for w in free:                                   # the same state (or the same position) of another variable, at the same place
            if any(type(s) is type(a[v]) and s == a[v] for s in doms[w]):
                out.append({(w if x == v else x): a[x] for x in ks})
            k = list(doms[v]).index(a[v])
            if k < len(doms[w]):
                out.append({(w if x == v else x): (doms[w][k] if x == v else a[x]) for x in ks})
        for w in ks:
            if w != v and w in doms and a[v] in doms[w] and a[w] in doms[v]:
                out.append({**a, v: a[w], w: a[v]})
        out.append({x: a[x] for x in ks if x != v})
    out.append({x: a[x] for x in reversed(ks)})
    out += [{**a, w: gen.pick_state(rng, doms[w])} for w in free[:2]]
    return [o for o in out if list(o.items()) != list(a.items())]


class Q:
    """A query as data: engine method, target, assignment(s); neighbours of it differ in one respect."""

    def __init__(self, doms, call, target, parts, fixed=(), possible=None):
        self.doms, self.call, self.target, self.parts, self.fixed, self.possible = doms, call, list(target), [dict(p) for p in parts], list(fixed), possible

    def __call__(self, inf):
        return self.call(inf, list(self.target), [dict(p) for p in self.parts])

    def near(self, rng):
        cand = []
        for k, p in enumerate(self.parts):
            busy = set(self.target) | set(self.fixed) | {v for j, o in enumerate(self.parts) if j != k for v in o}
            cand += [Q(self.doms, self.call, self.target, self.parts[:k] + [o] + self.parts[k + 1:], self.fixed, self.possible) for o in neighbours(rng, self.doms, p, busy)]
        used = set(self.target) | set(self.fixed) | {v for p in self.parts for v in p}
        for v in self.doms:
            if v not in used:
                cand.append(Q(self.doms, self.call, [v] + self.target[1:], self.parts, self.fixed, self.possible))
        cand = gen.choose(rng, cand, min(len(cand), 8)) if cand else []
        return next((c for c in cand if self.possible is None or self.possible(c.parts)), None)

    def __repr__(self):
        return f"{self.target} {self.parts}"


def drive(ctx, rng, new, ops, bad, name, n):
    """ops: {kind: () -> query function of an engine}; compares one long-lived engine with new ones."""
    inf = new()
    other = new() if rng.random() < .4 else None
    held, hist = [], []
    for q in range(n):
        if bad and rng.random() < .3:
            what, fn = bad[rng.integers(len(bad))]
            ctx.rejects(what, lambda: fn(inf))
            ctx.count("refused_between")
            hist.append("refused")
        kind = gen.pick_state(rng, list(ops))
        if held and rng.random() < .2:
            kind, f, _, _ = held[rng.integers(len(held))]
            ctx.count("repeated")
        else:
            f = None
            if held and rng.random() < .6:
                k0, f0, _, _ = held[-1 - int(rng.integers(min(len(held), 2)))]
                f = f0.near(rng) if isinstance(f0, Q) else None
                if f is not None:
                    kind = k0
                    ctx.count("neighbouring")
            if f is None:
                f = ops[kind]()
        if other is not None and rng.random() < .5:
            with ctx.sut(f"{name}: {kind} by a second engine"):
                ops[gen.pick_state(rng, list(ops))]()(other)
            ctx.count("two_engines")
        hist.append(kind)
        ctx.note(history=hist)
        with ctx.sut(f"{name}: {kind} after {hist[:-1]}"):
            r = f(inf)
        with ctx.sut(f"{name}: {kind} by a new engine"):
            w = f(new())
        eq(ctx, r, w, f"{name}: {kind} after {hist[:-1]} differs from the answer of a new engine")
        for k, (kk, ff, rr, fr) in (enumerate(held) if q == n - 1 else list(enumerate(held))[-1:]):
            ctx.check(frozen(rr) == fr, f"{name}: the result of query {k} ({kk}) changed when asking {kind}")
            ctx.count("kept_results")
        held.append((kind, f, r, frozen(r)))
        ctx.count(kind if kind in NEED else "other_kind")
    ctx.seen(name, tuple(hist[-6:]))


def pairs(rng, scm):
    endo = list(scm.endo)
    return gen.pick_state(rng, endo), gen.pick_state(rng, endo)


class Joint:
    def __init__(self, spec):
        self.spec, self.cache = spec, {}

    def at(self, ev):
        k = frozenset(ev.items())
        if k not in self.cache:
            t = self.spec.joint().reduce([v for v in self.spec.vars if v not in ev], "sum")
            self.cache[k] = float(t.at(ev)) if ev else 1.
        return self.cache[k]


def causal_ops(rng, scm):
    endo = list(scm.endo)

    def possible(do, ev):
        return not ev or scm.query([(f"{v}#", v, 0) for v in ev], [dict(do)])[0].at({f"{v}#": s for v, s in ev.items()}) > 1e-12

    def causal():
        x = gen.pick_state(rng, endo)
        do = {x: gen.pick_state(rng, scm.endo[x])}
        t = gen.choose(rng, [v for v in endo if v != x], int(rng.choice([1, 1, 2]))) if len(endo) > 1 else []
        if not t:
            t, do = [x], {}
        pt = gen.scm_point(rng, scm, [do])[0]
        ev = {v: pt[v] for v in gen.choose(rng, [v for v in endo if v not in t and v not in do], int(rng.integers(0, 2)))}
        return Q(scm.endo, lambda inf, t, ps: inf.causal_query(t, do=ps[0], evidence=ps[1] or None), t, [do, ev], possible=lambda ps: possible(ps[0], ps[1]))

    def counterfactual():
        x = gen.pick_state(rng, endo)
        w = int(rng.choice([1, 1, 2]))
        do = [{x: gen.pick_state(rng, scm.endo[x])} for _ in range(w)]
        t = [v for v in gen.choose(rng, endo, 1)]
        if w == 2 or t[0] != x:
            t = [v for v in endo if v != x][:1] or None
        pt = gen.scm_point(rng, scm, [{}])[0]
        ev = {v: pt[v] for v in gen.choose(rng, endo, int(rng.integers(0, 2)))}
        if t is None or t[0] == x:
            return lambda inf: inf.causal_query(x, do={})
        sub = [int(rng.integers(1, w + 1))]
        return Q(scm.endo, lambda inf, t, ps: inf.counterfactual_query(t, ps[1:] if w > 1 else ps[1], evidence=ps[0] or None, targets_subgraphs=list(sub)), t, [ev] + do,
                 possible=lambda ps: possible({}, ps[0]) and all(ps[1:]))

    def causation():
        x, y = pairs(rng, scm)
        if x == y or len(scm.endo[x]) < 2 or len(scm.endo[y]) < 2:
            return lambda inf: inf.causal_query(y, do={})
        tx, ty = tuple(gen.choose(rng, scm.endo[x], 2)), tuple(gen.choose(rng, scm.endo[y], 2))
        return lambda inf: inf.prob_necessity_sufficiency(x, y, tx, ty)     # (neighbours: the same pair with the states exchanged are drawn by chance)

    return {"causal": causal, "counterfactual": counterfactual, "causation": causation}


def case(ctx, rng, i):
    import bcause as bc
    import pandas as pd
    from bcause.inference.causal.elimination import CausalVariableElimination
    from bcause.inference.causal.multi import EMCC, CausalMultiInference
    from bcause.inference.ordering import Heuristic
    from bcause.inference.probabilistic.datainference import LaplaceInference
    from bcause.inference.probabilistic.elimination import VariableElimination
    from bcause.learning.aggregator.aggregator import SimpleModelAggregatorEM
    from bcause.learning.parameter.expectation_maximization import ExpectationMaximization
    from bcause.learning.parameter.gradient import GradientLikelihood
    what = i % 8
    n = int(rng.integers(5, 11))
    if what in (0, 1):
        spec = gen.random_bn(rng, 2, 6, 800, hi=3, **({"kinds": ["range"]} if rng.random() < .5 else {}))
        refj = Joint(spec)
        m = gen.bn_obj(rng, spec, gen.VTYPES[rng.integers(4)] if rng.random() < .3 else None)
        h = [None, Heuristic.MIN_FILL, Heuristic.MIN_SIZE, Heuristic.MIN_WEIGHT][rng.integers(4)]
        ctx.note(doms=spec.doms, parents=spec.parents)
        snap = snap_model(m)

        def q(cond=False, split=False):
            t = gen.choose(rng, spec.vars, int(rng.choice([1, 1, 2])))
            rest = [v for v in spec.vars if v not in t]
            c = gen.choose(rng, rest, 1) if cond and rest else []
            p = gen.bn_point(rng, spec)
            ev = {v: p[v] for v in gen.choose(rng, [v for v in rest if v not in c], int(rng.integers(0, 3)))}
            if c:
                return lambda inf: inf.query(list(t), conditioning=list(c), evidence=dict(ev))
            if split:
                def f(inf):
                    inf.compile(list(t), dict(ev))
                    a = inf.run()
                    eq(ctx, inf.run(), a, "variable elimination: running a compiled query twice")
                    return a
                return f
            return Q(spec.doms, lambda inf, t, ps: inf.query(t if len(t) > 1 else t[0], evidence=ps[0] or None), t, [ev], possible=lambda ps: refj.at(ps[0]) > 0)

        v0 = spec.vars[0]
        bad = [("target in the evidence", lambda inf: inf.query(v0, evidence={v0: spec.doms[v0][0]})), ("unknown target", lambda inf: inf.query("noSuchVariable")),
               ("unknown evidence", lambda inf: inf.query(v0, evidence={"noSuchVariable": 0})), ("repeated target", lambda inf: inf.query([v0, v0])),
               ("target conditioned on", lambda inf: inf.query([v0], conditioning=[v0]))]
        drive(ctx, rng, lambda: VariableElimination(m, h), {"posterior": q, "conditional": lambda: q(True), "compiled_runs": lambda: q(split=True)}, bad, "variable elimination", n)
        # a refused query must not disturb the compiled one
        inf = VariableElimination(m, h)
        t = gen.pick_state(rng, spec.vars)
        inf.compile(t)
        a = inf.run()
        b, fn = bad[rng.integers(3)]
        ctx.rejects(b, lambda: fn(inf))
        try:
            r = inf.run()
        except Exception:
            r = None
        if r is not None:
            eq(ctx, r, a, f"variable elimination: running the compiled query for {t} after the refusal of {b}")
        ctx.count("run_after_refusal")
        ctx.check(snap_model(m) == snap, "queries changed the model")
    elif what == 2:
        spec = gen.random_bn(rng, 2, 4, 100, hi=3, **({"kinds": ["range"]} if rng.random() < .5 else {}))
        rows = [gen.bn_point(rng, spec) for _ in range(int(rng.choice([3, 20])))]
        df = pd.DataFrame(rows)
        doms = {v: list(d) for v, d in spec.doms.items()}
        snap = snap_df(df)

        def q(cond=False):
            t = gen.choose(rng, spec.vars, int(rng.choice([1, 1, 2])))
            rest = [v for v in spec.vars if v not in t]
            c = gen.choose(rng, rest, 1) if cond and rest else []
            p = rows[rng.integers(len(rows))]
            ev = {v: p[v] for v in gen.choose(rng, [v for v in rest if v not in c], int(rng.integers(0, 2)))}
            if c:
                return lambda inf: inf.query(list(t), conditioning=list(c), evidence=dict(ev))
            return Q(doms, lambda inf, t, ps: inf.query(t, evidence=ps[0]), t, [ev], possible=lambda ps: any(all(r[v] == x for v, x in ps[0].items()) for r in rows))

        v0 = spec.vars[0]
        bad = [("target in the evidence", lambda inf: inf.query(v0, evidence={v0: spec.doms[v0][0]})), ("repeated target", lambda inf: inf.query([v0, v0]))]
        drive(ctx, rng, lambda: LaplaceInference(df, doms), {"data": q, "conditional": lambda: q(True)}, bad, "frequencies from data", n)
        drive(ctx, rng, lambda: LaplaceInference(df, doms, preprocess_flag=False), {"data": q}, [], "frequencies from data", 4)
        ctx.check(snap_df(df) == snap and doms == spec.doms, "queries changed the data")
    elif what in (3, 4):
        scm = gen.random_scm(rng, (1, 4), (1, 3), 60, exo_hi=4, p_kinds=["pos", "dir"], **({"kinds": ["range"]} if rng.random() < .5 else {}))
        ctx.note(doms=scm.doms, parents=scm.parents)
        det = rng.random() < .4
        m = gen.scm_obj(rng, scm, deterministic=det, cast=not det or rng.random() < .6)
        snap = snap_model(m)
        v0 = list(scm.endo)[0]
        bad = [("unknown target", lambda inf: inf.causal_query("noSuchVariable", do={})), ("unknown intervention", lambda inf: inf.causal_query(v0, do={"noSuchVariable": 0})),
               ("unknown counterfactual target", lambda inf: inf.counterfactual_query("noSuchVariable", {v0: scm.endo[v0][0]}))]
        if what == 3:
            drive(ctx, rng, lambda: CausalVariableElimination(m), causal_ops(rng, scm), bad, "causal engine", n)
        else:
            specs = [scm.with_pu({u: gen.simplex(rng, len(d), "pos") for u, d in scm.exo.items()}) for _ in range(int(rng.integers(2, 4)))]
            ms = [m] + [gen.scm_obj(rng, s, cast=True) for s in specs]
            iv = rng.random() < .7
            mine = list(ms)
            ops = causal_ops(rng, scm)
            ops = {"multi": gen.pick_state(rng, list(ops.values())), "causal": ops["causal"], "counterfactual": ops["counterfactual"]}
            drive(ctx, rng, lambda: CausalMultiInference(mine, interval_result=iv), ops, bad, "multi-model engine", min(n, 6))
            # changing the models of an engine
            inf = CausalMultiInference(mine, interval_result=iv)
            f = ops["causal"]()
            with ctx.sut("multi-model engine after changing its models"):
                f(inf)
                more = [ms[1]]
                inf.add_models(more)
                r1 = f(inf)
                keep = frozen(r1)
                inf.set_models(ms[1:])
                r2 = f(inf)
                inf.set_models(mine)
                r3 = f(inf)
            ctx.check(len(mine) == len(ms) and all(a is b for a, b in zip(mine, ms)) and len(more) == 1, f"adding models to the engine changed the list of the caller: {len(mine)} models instead of {len(ms)}")
            ctx.count("own_list")
            with ctx.sut("new multi-model engines"):
                w1, w2, w3 = (f(CausalMultiInference(list(x), interval_result=iv)) for x in (ms + [ms[1]], ms[1:], ms))
            eq(ctx, r1, w1, "multi-model engine after adding a model")
            eq(ctx, r2, w2, "multi-model engine after replacing its models")
            eq(ctx, r3, w3, "multi-model engine after setting its first models again")
            ctx.check(frozen(r1) == keep, "an earlier answer changed when the models of the engine were replaced")
        ctx.check(snap_model(m) == snap, "queries changed the model")
    elif what in (5, 6):
        bn = rng.random() < .4
        if bn:
            spec = gen.random_bn(rng, 1, 4, 100, cpt_kinds=["pos"], hi=3)
            prior = gen.bn_obj(rng, spec)
            visible, tr = list(spec.vars), gen.choose(rng, spec.vars, kmin=1)
        else:
            scm = gen.random_scm(rng, (1, 3), (1, 2), 30, exo_hi=4, p_kinds=["pos"])
            spec = scm.bn()
            prior = gen.scm_obj(rng, scm, cast=True).randomize_factors(list(scm.exo), allow_zero=False)
            visible, tr = list(scm.endo), list(scm.exo)
        b0 = refbn_of(prior, spec)

        def frame(rate):
            rows = []
            for _ in range(int(rng.choice([2, 8, 20]))):
                p = gen.bn_point(rng, b0)
                rows.append({v: p[v] for v in visible if rng.random() >= rate})
            df = pd.DataFrame([[r.get(v, float("nan")) for v in visible] for r in rows], columns=visible)
            return df, rows

        (d1, r1), (d2, r2) = frame(.3 if bn else 0), frame(.3 if bn else 0)
        default = rng.random() < .4
        kw = {} if default else {"trainable_vars": list(tr)}
        if default and bn and any(not any(v not in r for r in rs for v in visible) for rs in (r1, r2)):
            kw = {"trainable_vars": list(tr)}
        k1, k2 = (int(x) for x in rng.choice([1, 2, 5, 25], 2, p=[.3, .35, .25, .1]))
        ctx.note(parents=spec.parents, doms=spec.doms, rows1=r1[:8], rows2=r2[:8], trainable=kw, iterations=[k1, k2])
        snap = snap_model(prior)
        with ctx.sut("EM run twice"):
            em = ExpectationMaximization(prior, **kw)
            em.run(d1, max_iter=k1)
            first = em.model
            fz = snap_model(first)
            em.run(d2, max_iter=k2)
        with ctx.sut("new EM"):
            e2 = ExpectationMaximization(prior, **kw)
            e2.run(d2, max_iter=k2)
        ctx.check(set(em.trainable_vars) == set(e2.trainable_vars), f"after another run EM trains {em.trainable_vars}; a new one trains {e2.trainable_vars}")
        same_models(ctx, em.model, e2.model, spec.vars, f"EM run on other data before ({k1} and {k2} iterations)")
        ctx.check(len(em.model_evolution) == len(e2.model_evolution) and em.model_evolution[0] is em.prior_model, f"evolution of {len(em.model_evolution)} models after the second run, {len(e2.model_evolution)} for a new learner")
        ctx.check(snap_model(first) == fz and snap_model(prior) == snap, "running EM again changed the model learnt first or the prior")
        ctx.count("em_rerun")
        ctx.seen("em", bn, default, k1, k2, len(spec.vars), len(em.model_evolution))
        k = int(rng.integers(1, 4))
        with ctx.sut("EM resumed"):
            a, b = ExpectationMaximization(prior, **kw), ExpectationMaximization(prior, **kw)
            a.run(d1, max_iter=k)
            b.run(d1, max_iter=k + 2)
            if len(b.model_evolution) == k + 3 and len(a.model_evolution) == k + 1:
                a.step()
                a.step()
                same_models(ctx, a.model, b.model, spec.vars, f"EM run for {k} iterations and resumed for 2", tol=1e-6)
                ctx.count("em_resumed")
    else:
        scm = gen.random_scm(rng, (1, 3), (1, 2), 20, exo_per_endo=1, exo_hi=4, p_kinds=["pos"], allow_exo_free=False)
        m = gen.scm_obj(rng, scm, cast=True)
        d1, d2 = pd.DataFrame(gen.endo_rows(rng, scm, 6)), pd.DataFrame(gen.endo_rows(rng, scm, 10))
        s, k, it = int(rng.integers(2 ** 31)), int(rng.integers(1, 4)), int(rng.integers(1, 4))
        ctx.note(parents=scm.parents, doms=scm.doms, seed=s)
        prior = m.randomize_factors(m.exogenous, allow_zero=False)
        with ctx.sut("gradient learner run twice"):
            g = GradientLikelihood(prior, tol=1e-4)
            g.run(d1, max_iter=20)
            g.run(d2, max_iter=20)
            g2 = GradientLikelihood(prior, tol=1e-4)
            g2.run(d2, max_iter=20)
        same_models(ctx, g.model, g2.model, list(scm.doms), "gradient learner run on other data before")
        ctx.check(len(g.model_evolution) == len(g2.model_evolution), f"evolution of {len(g.model_evolution)} models after the second run, {len(g2.model_evolution)} for a new learner")
        ctx.count("gradient_rerun")
        with ctx.sut("aggregator reset"):
            agg = SimpleModelAggregatorEM(m, d1, max_iter=it)
            bc.randomUtil.seed(s)
            agg.run(k)
            one = list(agg.models)
            agg.reset()
            ctx.check(len(agg.models) == 0 and len(agg.learn_objects) == 0, f"{len(agg.models)} models and {len(agg.learn_objects)} learners after a reset")
            bc.randomUtil.seed(s)
            agg.run(k)
        ctx.check(len(one) == k and len(agg.models) == k and len(agg.learn_objects) == k, f"{len(agg.models)} models and {len(agg.learn_objects)} learners after a reset, {k} requested")
        for a, b in zip(one, agg.models):
            same_models(ctx, a, b, list(scm.doms), "aggregator after a reset")
        more = int(rng.integers(1, 3))
        with ctx.sut("aggregator run again"):
            held = list(agg.models)
            agg.run(more)
        ctx.check(len(agg.models) == k + more and all(a is b for a, b in zip(agg.models, held)), f"{len(agg.models)} models after asking for {k} and {more}")
        ctx.count("aggregator_reset")
        with ctx.sut("engine compiled again"):
            inf = EMCC(m, d1, max_iter=it, num_runs=k, parallel=False)
            bc.randomUtil.seed(s)
            inf.compile()
            one = list(inf.models)
            y = list(scm.endo)[0]
            q1 = frozen(inf.causal_query(y, do={}))
            bc.randomUtil.seed(s)
            inf.compile()
            q2 = frozen(inf.causal_query(y, do={}))
        ctx.check(len(one) == k == len(inf.models), f"{len(inf.models)} models after compiling again, {k} requested")
        for a, b in zip(one, inf.models):
            same_models(ctx, a, b, list(scm.doms), "engine compiled again with the same seed")
        ctx.check(np.allclose([t[1] for t in q1], [t[1] for t in q2], atol=1e-7), f"answers {q1} and {q2} of an engine compiled twice with the same seed")
        ctx.count("engine_recompiled")
        ctx.seen("aggregator", k, it, more)
    if i < 8:
        ctx.sample({"what": what, "history": ctx.desc.get("history")})
