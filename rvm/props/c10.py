"""C10 counterfactual queries: worlds share the exogenous variables."""
import numpy as np

from .. import gen
from ..obs import expect, snap_model, table

ID = "C10"
CASES = {"quick": 1300, "thorough": 40000}
NEED = {"counterfactual": 1200, "with_evidence": 700, "two_worlds": 250, "three_worlds": 50, "multi_target": 300, "no_evidence": 200,
        "world_evidence": 150, "consistency": 150, "factual_target": 40, "deterministic_model": 150, "empty_world": 40, "intervened_target_other_world": 30}
RULE = ("random structural causal models as in C09; one to three hypothetical worlds with interventions on 0-2 variables each, targets in "
        "any of the worlds (several, the same variable in several worlds), evidence in the factual world and optionally in hypothetical ones; "
        "answers compared with enumeration of the exogenous configurations, solving the equations once per world; the consistency rule "
        "(intervening with the observed value changes nothing) is checked as an identity of answers. Distinct = (sizes, number of worlds, "
        "do/target/evidence sizes, target repeated across worlds).")
ASSUMPTIONS = ["evidence of probability above 1e-9", "names of variables do not already end in the world suffix", "tolerance 1e-7"]


def case(ctx, rng, i):
    from bcause.inference.causal.elimination import CausalVariableElimination
    big = i % 30 == 11
    scm = gen.random_scm(rng, (4, 5) if big else (1, 3), (2, 4) if big else (1, 3), 150 if big else 60, hi=2 if big else 3, exo_hi=4)
    if any(v + s in scm.doms for v in scm.doms for s in ("_1", "_2", "_3")):
        return
    cast, det = rng.random() < .6, rng.random() < .6
    m = gen.scm_obj(rng, scm, deterministic=det, cast=cast)
    ctx.note(doms=scm.doms, parents=scm.parents, eq={v: a.tolist() for v, a in scm.eq.items()}, pu={u: p.tolist() for u, p in scm.pu.items()}, cast=cast, det=det)
    if det and not cast:
        ctx.count("deterministic_model")
    before = snap_model(m)
    inf = CausalVariableElimination(m)
    endo = list(scm.endo)
    for q in range(3):
        nw = int(rng.choice([1, 1, 2, 3] if not big else [1, 1, 2]))
        if len(endo) * (nw + 1) + len(scm.exo) > 14:
            nw = 1
        dos = [{v: gen.pick_state(rng, scm.endo[v]) for v in gen.choose(rng, endo, int(rng.choice([0, 1, 1, 1, 2])))} for _ in range(nw)]
        worlds = [{}] + dos
        cand = [(v, k) for k in range(1, nw + 1) for v in endo if v not in dos[k - 1]]
        if not cand:
            continue
        tk = [cand[j] for j in rng.permutation(len(cand))[:int(rng.choice([1, 1, 2, 3]))]]
        labels = [(f"{v}_{k}", v, k) for v, k in tk]
        ev = gen.random_evidence(rng, {**scm.endo, **({u: d for u, d in scm.exo.items()} if rng.random() < .15 else {})}, (), 3)
        pts = gen.scm_point(rng, scm, worlds) if rng.random() < .8 else None
        if pts:
            ev = {v: pts[0][v] for v in ev}
        evl = [(v, s, 0) for v, s in ev.items()]
        wev = {}
        if rng.random() < .45:                                    # evidence about a hypothetical world
            for v, k in cand:
                if (v, k) not in tk and rng.random() < .4:
                    wev[f"{v}_{k}"] = pts[k][v] if pts else gen.pick_state(rng, scm.endo[v])
                    evl.append((v, wev[f"{v}_{k}"], k))
        want, z = scm.query_multi(labels, worlds, evl)
        if want is None or z < 1e-9:
            ev, wev, evl = {}, {}, []
            want, z = scm.query_multi(labels, worlds, evl)
        ctx.note(worlds=dos, targets=tk, evidence={**ev, **wev})
        do0 = [dict(d) for d in dos]
        alleq = all(k == 1 for _, k in tk)
        with ctx.sut(f"counterfactual {tk} under {dos} given {ev} {wev}"):
            doarg = dos[0] if nw == 1 and rng.random() < .6 else dos
            e = {**ev, **wev}
            kw = {} if alleq and rng.random() < .5 else dict(targets_subgraphs=[k for _, k in tk])
            tg = [v for v, _ in tk]
            tg = tg[0] if len(tg) == 1 and rng.random() < .6 else tg
            if rng.random() < .8:
                p = inf.counterfactual_query(tg, doarg, evidence=e if e or rng.random() < .5 else None, **kw)
            else:
                p = inf.query(tg, doarg, evidence=e, counterfactual=True, **kw)
        ctx.check(dos == do0, "the interventions of the caller changed")
        expect(ctx, p, want, f"counterfactual {tk} under {dos} given {ev} {wev}", tol=1e-7, rtol=1e-7)
        ctx.check(set(p.left_vars) == {l for l, _, _ in labels}, f"left side {p.left_vars}")
        ctx.count("counterfactual"), ctx.count("with_evidence" if ev else "no_evidence"), ctx.count("world_evidence", int(bool(wev)))
        ctx.count("two_worlds", int(nw == 2)), ctx.count("three_worlds", int(nw == 3)), ctx.count("multi_target", int(len(tk) > 1))
        ctx.count("empty_world", int(any(not d for d in dos)))
        ctx.count("intervened_target_other_world", int(any(v in d for v, k in tk for j, d in enumerate(dos) if j + 1 != k)))
        ctx.seen(len(endo), len(scm.exo), nw, len(tk), len(ev), len(wev), len({v for v, _ in tk}) < len(tk), tuple(len(d) for d in dos))
        if i < 3:
            ctx.sample({"parents": scm.parents, "worlds": dos, "targets": tk, "evidence": {**ev, **wev}, "answer": repr(p)})
        if nw == 1 and rng.random() < .15 and len(endo) > 1:      # a target in the factual world next to a hypothetical one
            fv = [v for v in endo if v not in ev]
            if fv:
                want2, z2 = scm.query_multi([labels[0], (fv[0], fv[0], 0)], worlds, [(v, s, 0) for v, s in ev.items()])
                if want2 is not None and z2 > 1e-9:
                    with ctx.sut("joint of a factual and a hypothetical variable"):
                        r = inf.compile([labels[0][0], fv[0]], dos[0], ev, counterfactual=True).run()
                    expect(ctx, r, want2, f"joint of {labels[0][0]} and factual {fv[0]}", tol=1e-7)
                    ctx.count("factual_target")
    # consistency: if X = x was observed, do(X = x) changes nothing
    x = gen.pick_state(rng, endo)
    s = gen.pick_state(rng, scm.endo[x])
    fact, z = scm.query_multi([("a", x, 0)], [{}], [(x, s, 0)])
    others = [v for v in endo if v != x]
    if fact is not None and z > 1e-6 and others:
        y = gen.pick_state(rng, others)
        with ctx.sut("consistency"):
            c = inf.counterfactual_query(y, do={x: s}, evidence={x: s})
            o = inf.causal_query(y, do={}, evidence={x: s})
        tc, to = table(c), table(o)
        ctx.check(np.allclose(tc.aligned({f"{y}_1": scm.endo[y]}), to.aligned({y: scm.endo[y]}), atol=1e-7),
                  f"{y} had {x} been {s}, given {x} = {s}: {tc.a.ravel().tolist()}, but P({y} | {x}={s}) = {to.a.ravel().tolist()}")
        ctx.count("consistency")
    ctx.check(snap_model(m) == before, "a counterfactual query changed the model")
