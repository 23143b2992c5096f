"""C09 interventional queries: P(targets | do(x), evidence) by truncated factorisation."""
import numpy as np

from .. import gen
from ..obs import expect, expect_sides, snap_model, table
from ..ref import T

ID = "C09"
CASES = {"quick": 1400, "thorough": 45000}
NEED = {"causal_query": 1500, "with_evidence": 400, "multi_do": 300, "multi_target": 400, "do_has_no_effect": 100, "confounded": 300,
        "intervention": 500, "deterministic_model": 137, "exo_target": 60, "empty_do": 50, "rejected": 50, "exo_do": 120}
RULE = ("random structural causal models (1-5 endogenous, 1-4 exogenous variables, shared/multiple/no exogenous parents, equations as "
        "deterministic factors or degenerate tables, any variable order, both casting modes); random interventions on 0-3 endogenous variables (sometimes also an exogenous one), targets "
        "(endogenous or exogenous) and evidence; answers compared with solving the mutilated equations for every exogenous configuration; "
        "intervened model objects are compared structurally and as distributions. Distinct = (sizes, do/target/evidence sizes, relation of the "
        "intervened variable to the targets, confounding).")
ASSUMPTIONS = ["evidence of probability above 1e-9 after the intervention", "tolerance 1e-7"]


def case(ctx, rng, i):
    from bcause.inference.causal.elimination import CausalVariableElimination
    big = i % 25 == 9
    scm = gen.random_scm(rng, (4, 6) if big else (1, 4), (2, 4) if big else (1, 3), 200 if big else 80, hi=2 if big else 3, exo_hi=4)
    cast = rng.random() < .6
    det = rng.random() < .6
    vtype = gen.VTYPES[rng.integers(4)] if rng.random() < .15 and not big else None
    m = gen.scm_obj(rng, scm, vtype, deterministic=det, cast=cast)
    ctx.note(doms=scm.doms, parents=scm.parents, eq={v: a.tolist() for v, a in scm.eq.items()}, pu={u: p.tolist() for u, p in scm.pu.items()}, cast=cast, det=det)
    if det and not cast:
        ctx.count("deterministic_model")
    before = snap_model(m)
    inf = CausalVariableElimination(m)
    endo = list(scm.endo)
    bn = scm.bn()
    for q in range(2 if vtype else 4):
        nd = int(rng.choice([0, 1, 1, 1, 2, 3]))
        do = {v: gen.pick_state(rng, scm.endo[v]) for v in gen.choose(rng, endo, nd)}
        pool = [v for v in (endo if rng.random() < .85 else list(scm.doms)) if v not in do]
        if not pool:
            continue
        t = gen.choose(rng, pool, int(rng.choice([1, 1, 2])))
        ev = gen.random_evidence(rng, {v: d for v, d in scm.doms.items() if v in scm.endo or rng.random() < .2}, set(t) | set(do), 2)
        if rng.random() < .8:
            pt = gen.scm_point(rng, scm, [do])[0]
            ev = {v: pt[v] for v in ev}
        want, z = scm.query([(v, v, 0) for v in t], [do], 0, ev)
        if want is None or z < 1e-9:
            ev = {}
            want, z = scm.query([(v, v, 0) for v in t], [do], 0, ev)
        ctx.note(do=do, target=t, evidence=ev)
        do0, ev0 = dict(do), dict(ev)
        with ctx.sut(f"P({t} | do({do}), {ev})"):
            k = rng.integers(3)
            if k == 0:
                p = inf.causal_query(gen.as_target(rng, t), do=do, evidence=ev if ev or rng.random() < .5 else None)
            elif k == 1:
                p = inf.query(gen.as_target(rng, t), do, evidence=ev)
            else:
                p = inf.compile(gen.as_target(rng, t), do, ev).run()
        ctx.check(do == do0 and ev == ev0, "the intervention or evidence dictionary of the caller changed")
        expect(ctx, p, want, f"P({t} | do({do}), {ev})", tol=1e-7, rtol=1e-7)
        ctx.check(set(p.left_vars) == set(t), f"left side of the answer {p.left_vars} for target {t}")
        ctx.count("causal_query"), ctx.count("with_evidence", int(bool(ev))), ctx.count("multi_do", int(len(do) > 1))
        ctx.count("multi_target", int(len(t) > 1)), ctx.count("exo_target", int(any(x in scm.exo for x in t))), ctx.count("empty_do", int(not do))
        desc = any(x in bn.descendants(d) for d in do for x in t)
        ctx.count("do_has_no_effect", int(bool(do) and not desc))
        conf = any(set(scm.parents[d]) & set(scm.parents[x]) & set(scm.exo) for d in do for x in t if x in scm.parents)
        ctx.count("confounded", int(conf))
        ctx.seen(len(endo), len(scm.exo), len(do), len(t), len(ev), desc, conf, cast, det)
        if i < 3:
            ctx.sample({"parents": scm.parents, "do": do, "target": t, "evidence": ev, "answer": repr(p)})
    ctx.check(snap_model(m) == before, "a causal query changed the model")
    # the intervened model itself
    do = {v: gen.pick_state(rng, scm.endo[v]) for v in gen.choose(rng, endo, kmin=1)}
    if i % 5 == 2:                                              # exogenous variables can be set as well
        u = gen.pick_state(rng, list(scm.exo))
        s = gen.pick_state(rng, scm.exo[u])
        fixed = scm.with_pu({**scm.pu, u: np.array([float(x == s) for x in scm.exo[u]])})
        t = gen.pick_state(rng, [v for v in scm.doms if v != u])
        with_do = {v: x for v, x in do.items() if v != t and rng.random() < .5}
        ctx.note(do={**with_do, u: s}, target=t)
        with ctx.sut(f"P({t} | do({with_do}, {u}={s!r}))"):
            p = inf.causal_query(t, do={**with_do, u: s})
        expect(ctx, p, fixed.query([(t, t, 0)], [with_do])[0], f"P({t} | do({with_do}, {u}={s!r}))", tol=1e-7, rtol=1e-7)
        do = {**(do if rng.random() < .5 else {}), u: s}
        ctx.count("exo_do")
    ctx.note(do=do)
    with ctx.sut(f"intervention({do})"):
        mi = m.intervention(**do)
    ctx.check(snap_model(m) == before, "building an intervened model changed the original")
    ctx.check(set(mi.variables) == set(scm.doms) and set(mi.endogenous) == set(endo) and set(mi.exogenous) == set(scm.exo), f"variables of the intervened model {mi.endogenous} | {mi.exogenous}")
    ctx.check(set(map(tuple, mi.graph.edges)) == {(p, v) for p, v in scm.edges if v not in do}, f"arcs of the intervened model {list(mi.graph.edges)}")
    for v in scm.doms:
        f = mi.factors[v]
        f = f.to_multinomial() if hasattr(f, "to_multinomial") else f
        if v in do:
            expect(ctx, f, T({v: scm.doms[v]}, [float(s == do[v]) for s in scm.doms[v]]), f"equation of intervened {v}")
        else:
            expect(ctx, f, bn.factor(v), f"factor of {v} in the intervened model")
    ctx.count("intervention")
    ctx.seen("intervention", len(endo), len(do), cast, det)
    if len(endo) > 1 and rng.random() < .3:                     # interventions compose
        a, b = endo[0], endo[1]
        sa, sb = gen.pick_state(rng, scm.endo[a]), gen.pick_state(rng, scm.endo[b])
        with ctx.sut("two interventions in a row"):
            m1, m2 = m.intervention(**{a: sa}).intervention(**{b: sb}), m.intervention(**{a: sa, b: sb})
        for v in scm.doms:
            f1, f2 = [x.factors[v].to_multinomial() if hasattr(x.factors[v], "to_multinomial") else x.factors[v] for x in (m1, m2)]
            expect(ctx, f1, table(f2), f"do({a}) then do({b}): factor of {v}")
    if rng.random() < .15:
        v = endo[0]
        ctx.rejects("intervention to a state outside the domain", lambda: CausalVariableElimination(m).causal_query(endo[-1] if len(endo) > 1 else list(scm.exo)[0], do={v: "no such state"}))
        ctx.rejects("intervention on an unknown variable", lambda: inf.causal_query(v, do={"noSuchVariable": 0}))
        ctx.rejects("target that is intervened", lambda: inf.causal_query(v, do={v: scm.endo[v][0]}))
        ctx.count("rejected")
