"""C08 the query-specific reduction of a network preserves the query."""
import numpy as np

from .. import gen
from ..obs import expect, snap_model, table
from ..ref import T

ID = "C08"
CASES = {"quick": 1600, "thorough": 50000}
NEED = {"reduced": 1200, "removed_some": 600, "with_evidence": 500, "target_kept": 1200, "cut_arcs": 200, "dropped_disconnected": 100, "scm": 80, "long": 30}
RULE = ("random networks, structural models, target sets and evidence (graph position of evidence varied: ancestors, descendants, colliders, "
        "other components); the reduced model must contain the targets, only original variables, no more barren or disconnected variables, and the product of its factors, "
        "restricted to the evidence and normalised over the targets, must equal the exact posterior of the original model; the original "
        "model must stay unchanged. Distinct = (variables kept, removed, target/evidence sizes, arcs cut).")
ASSUMPTIONS = ["evidence of probability above 1e-9", "tolerance 1e-7"]


def case(ctx, rng, i):
    from bcause.models.transform.simplification import minimalize
    if i % 10 == 6:
        scm = gen.random_scm(rng, (2, 4), (1, 3), 40)
        spec, m = scm.bn(), gen.scm_obj(rng, scm)
        if np.prod([len(d) for d in spec.doms.values()]) > 30000:
            return
        ctx.count("scm")
    elif i % 20 == 13:
        spec, first, last = gen.long_bn(rng)
        m = gen.bn_obj(rng, spec)
        ctx.count("long")
    else:
        spec = gen.random_bn(rng, 1, 8, 2000, dens=rng.choice([.1, .2, .35, .6]))
        m = gen.bn_obj(rng, spec)
    before = snap_model(m)
    for _ in range(2):
        t = gen.choose(rng, spec.vars, int(rng.choice([1, 1, 2, 3])))
        ev = gen.random_evidence(rng, spec.doms, t, 4)
        if rng.random() < .8:
            pt = gen.bn_point(rng, spec)
            ev = {v: pt[v] for v in ev}
        if i % 20 == 13 and rng.random() < .7:                # both ends of a chain
            t, ev = [first], {last: gen.pick_state(rng, spec.doms[last])}
        ref, z = spec.posterior(t, ev)
        if ref is None or z < 1e-9:
            ev = {}
            ref, z = spec.posterior(t, ev)
        ctx.note(doms=spec.doms, parents=spec.parents, target=t, evidence=ev)
        arg = t[0] if len(t) == 1 and rng.random() < .5 else set(t) if rng.random() < .5 else list(t)
        ev0 = dict(ev)
        with ctx.sut(f"reducing for {t} given {ev}"):
            r = minimalize(m, arg, ev if ev or rng.random() < .5 else None)
        ctx.check(ev == ev0, "the evidence of the caller changed")
        ctx.check(snap_model(m) == before, "the original model changed")
        kept = set(r.variables)
        ctx.check(set(t) <= kept <= set(spec.vars), f"reduced variables {sorted(kept)} for target {t} of {spec.vars}")
        ctx.count("target_kept")
        # nothing barren or disconnected survives
        ch = {v: {c for c in spec.vars if v in spec.parents[c]} for v in spec.vars}
        rel = set(t) | set(ev) | spec.ancestors(list(t) + list(ev))
        ctx.check(kept <= rel, f"barren variables {sorted(kept - rel)} kept for target {t}, evidence {sorted(ev)}", parents=spec.parents)
        adj = {v: set() for v in rel}
        for v in rel:
            for p in spec.parents[v]:
                if p not in ev:
                    adj[v].add(p), adj[p].add(v)
        conn, todo = set(t), list(t)
        while todo:
            for x in adj[todo.pop()]:
                if x not in conn:
                    conn.add(x), todo.append(x)
        ctx.check(kept <= conn, f"disconnected variables {sorted(kept - conn)} kept", parents=spec.parents)
        if rel - conn:
            ctx.count("dropped_disconnected")
        # same posterior from the reduced model alone
        fs = r.factors
        ctx.check(set(fs) == kept, f"factors {sorted(fs)} for variables {sorted(kept)}")
        prod = T({}, [1.0])
        for v in spec.vars:
            if v in fs:
                prod = prod.combine(table(fs[v]).restrict({e: s for e, s in ev.items() if e in fs[v].domain}), "*")
        prod = prod.reduce([v for v in prod.vars if v not in t], "sum")
        tot = prod.a.sum()
        ctx.check(set(prod.vars) == set(t) and tot > 0, f"reduced model denotes a function of {prod.vars} with mass {tot}")
        expect(ctx, T(prod.doms, prod.a / tot), ref, f"posterior of {t} given {ev} from the reduced model", tol=1e-7, rtol=1e-7)
        ctx.count("reduced")
        edges = set(map(tuple, r.graph.edges))
        ctx.check(edges <= set(spec.edges) and all(a in kept and b in kept for a, b in edges), f"arcs {edges} of the reduced graph")
        for v in kept:
            ctx.check(set(fs[v].domain) >= {v}, f"factor of {v} lost its variable")
            vs = set(fs[v].domain) - {v}
            ctx.check(vs <= set(spec.parents[v]) - set(ev), f"factor of {v} mentions {vs}, parents {spec.parents[v]}, evidence {sorted(ev)}")
        cut = any(p in ev for v in kept for p in spec.parents[v])
        ctx.count("cut_arcs", int(cut))
        if len(kept) < len(spec.vars):
            ctx.count("removed_some")
        if ev:
            ctx.count("with_evidence")
        ctx.seen(len(kept), len(spec.vars) - len(kept), len(t), len(ev), cut)
        if i < 4:
            ctx.sample({"parents": spec.parents, "target": t, "evidence": ev, "kept": sorted(kept)})
