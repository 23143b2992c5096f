"""C07 elimination orderings are valid and the answer does not depend on the heuristic."""
import numpy as np

from .. import gen
from ..obs import expect, table, diff_tables, snap_graph
from ..ref import T

ID = "C07"
CASES = {"quick": 1000, "thorough": 30000}
NEED = {"orderings": 1350, "greedy_steps": 3000, "heuristic_answers": 1800, "user_heuristic": 300, "causal": 60, "same_seed": 200, "large": 112, "hubs": 25}
RULE = ("random DAGs; every built-in heuristic on random sets of variables to remove: the ordering must be a permutation of that set, each "
        "step must have minimal cost (neighbours / product of sizes / fill-in) in the current moral graph, and inputs must stay unchanged; "
        "random networks and structural models queried under the default, each built-in heuristic (by name and by function) and arbitrary "
        "user heuristics (random order, reversed, keyword-only, extra arguments): all answers equal the brute-force one. "
        "Distinct = (heuristic, number of variables, number removed, number of ties, query shape).")
ASSUMPTIONS = ["tie-breaking is free", "tolerance 1e-7"]


def moral(parents):
    adj = {v: set() for v in parents}
    for v, ps in parents.items():
        for p in ps:
            adj[v].add(p), adj[p].add(v)
        for a in ps:
            for b in ps:
                if a != b:
                    adj[a].add(b)
    return adj


def cost(kind, adj, v, sizes):
    n = adj[v]
    if kind == "MIN_SIZE":
        return len(n)
    if kind == "MIN_WEIGHT":
        return int(np.prod([sizes[x] for x in n], dtype=object) * sizes[v]) if n else sizes[v]
    ns = list(n)
    return sum(1 for a in range(len(ns)) for b in range(a + 1, len(ns)) if ns[b] not in adj[ns[a]])


def greedy(ctx, kind, parents, order, sizes):
    adj = moral(parents)
    left = set(order)
    ties = 0
    for v in order:
        costs = {x: cost(kind, adj, x, sizes) for x in left}
        mn = min(costs.values())
        ties += sum(1 for c in costs.values() if c == mn) > 1
        ctx.check(costs[v] == mn, f"{kind}: removes {v} (cost {costs[v]}) although {[x for x in costs if costs[x] == mn]} cost {mn}", order=order, parents=parents, sizes=sizes)
        ctx.count("greedy_steps")
        ns = adj.pop(v)
        for a in ns:
            adj[a].discard(v)
            adj[a] |= {b for b in ns if b != a}
        left.discard(v)
    return ties


def case(ctx, rng, i):
    import networkx as nx
    from bcause.inference import ordering as o
    from bcause.inference.ordering import Heuristic
    from bcause.inference.probabilistic.elimination import VariableElimination
    from bcause.inference.causal.elimination import CausalVariableElimination
    fns = {"MIN_FILL": o.min_fill_heuristic, "MIN_SIZE": o.min_size_heuristic, "MIN_WEIGHT": o.min_weight_heuristic}
    # --- orderings
    n = int(rng.integers(1, 11))
    hub = i % 16 == 6
    if hub:                                               # one variable with many neighbours: products of sizes beyond 64 bits
        n = int(rng.integers(66, 80))
        order = [str(x) for x in rng.permutation([f"H{k}" for k in range(n)])]
        top = order[0]
        parents = {v: [] if v == top or rng.random() < .03 else [top] for v in order}
        ctx.count("hubs")
    elif i % 4 == 1:                                        # larger sparse graphs: costs differ from step to step
        n = int(rng.integers(12, 26))
        pool = [f"{c}{k}" for c in "VWxyz" for k in range(n)]
        order = gen.choose(rng, pool, n)
        parents = {v: gen.choose(rng, order[:k], min(k, int(rng.choice([0, 1, 1, 2, 2, 3])))) for k, v in enumerate(order)}
        ctx.count("large")
    else:
        order = gen.names(rng, n)
        parents = gen.random_parents(rng, order, 4)
    sizes = {v: int(rng.choice([2, 2, 2, 4] if hub else [2, 2, 3, 4, 5, 7, 10, 60])) for v in order}
    g = gen.dag_obj(rng, order, [(p, v) for v in parents for p in parents[v]])
    to_remove = gen.choose(rng, order, n - int(rng.integers(0, 4)) if hub else None)
    ctx.note(parents=parents, sizes=sizes, to_remove=to_remove)
    for kind, fn in fns.items():
        before, tr = snap_graph(g), list(to_remove)
        arg = tr if rng.random() < .7 else tuple(tr) if rng.random() < .5 else set(tr)
        szs = dict(sizes)
        np.random.seed(int(rng.integers(1000)))
        with ctx.sut(f"{kind} ordering"):
            res = list(fn(g, to_remove=arg, varsizes=szs) if rng.random() < .5 else fn(dag=g, to_remove=arg, varsizes=szs))
        res = [str(x) for x in res]
        ctx.check(sorted(res) == sorted(to_remove), f"{kind}: ordering {res} of {to_remove}")
        ctx.check(snap_graph(g) == before and szs == sizes and (not isinstance(arg, list) or arg == to_remove), f"{kind}: the graph, sizes or list of the caller changed")
        ties = greedy(ctx, kind, parents, res, sizes)
        ctx.count("orderings"), ctx.seen("ordering", kind, n, len(to_remove), ties > 0)
        if isinstance(arg, list) and rng.random() < .3:
            r2 = [str(x) for x in fn(g, to_remove=arg, varsizes=szs)]
            ctx.check(r2 == res, f"{kind}: two calls with the same arguments give {res} and {r2}")
            ctx.count("same_seed")
    ctx.rejects("minimum weight without sizes", lambda: o.min_weight_heuristic(g, to_remove=list(to_remove)))
    # --- answers
    causal = i % 10 == 3
    if causal:
        scm = gen.random_scm(rng, (2, 3), (1, 3), 40)
        m, spec = gen.scm_obj(rng, scm), scm.bn()
    else:
        spec = gen.random_bn(rng, 2, 7, 900)
        m = gen.bn_obj(rng, spec)
    t = gen.choose(rng, spec.vars, int(rng.choice([1, 1, 2])))
    ev = gen.random_evidence(rng, spec.doms, t, 2)
    if rng.random() < .8:
        pt = gen.bn_point(rng, spec)
        ev = {v: pt[v] for v in ev}
    ref, z = spec.posterior(t, ev)
    if ref is None or z < 1e-9:
        ev = {}
        ref, z = spec.posterior(t, ev)
    seen_orders = []

    def user_random(dag, to_remove):
        seen_orders.append(list(to_remove))
        xs = list(to_remove)
        return [xs[k] for k in rng.permutation(len(xs))]

    def user_sorted(dag, to_remove, **kwargs):
        return sorted(to_remove, reverse=True)

    def user_sizes(dag, to_remove, varsizes=None):
        assert varsizes is not None and all(x in varsizes for x in to_remove)
        return sorted(to_remove, key=lambda v: -varsizes[v])

    def user_swapped(to_remove, dag):
        assert isinstance(dag, nx.DiGraph)
        return list(to_remove)[::-1]

    heur = [None, Heuristic.MIN_FILL, Heuristic.MIN_SIZE, Heuristic.MIN_WEIGHT, *fns.values(), user_random, user_sorted, user_sizes, user_swapped]
    pick = [heur[k] for k in rng.permutation(len(heur))[:4]]
    ctx.note(doms=spec.doms, q_parents=spec.parents, target=t, evidence=ev)
    for h in pick:
        name = getattr(h, "__name__", str(h))
        with ctx.sut(f"query with heuristic {name}"):
            p = VariableElimination(m, heuristic=h).query(list(t), evidence=ev)
        expect(ctx, p, ref, f"P({t} | {ev}) with heuristic {name}", tol=1e-7, rtol=1e-7)
        ctx.count("heuristic_answers")
        if name.startswith("user"):
            ctx.count("user_heuristic")
        ctx.seen("answer", name, len(spec.vars), len(t), len(ev))
    if causal:
        x = gen.pick_state(rng, list(scm.endo))
        others = [v for v in scm.endo if v != x]
        y, s = others[0], gen.pick_state(rng, scm.endo[x])
        want, _ = scm.query([(y, y, 0)], [{x: s}])
        wantc, _ = scm.query([(f"{y}_1", y, 0)], [{x: s}])
        for h in pick[:3]:
            name = getattr(h, "__name__", str(h))
            with ctx.sut(f"causal query with heuristic {name}"):
                e = CausalVariableElimination(m, heuristic=h)
                p, c = e.causal_query(y, do={x: s}), e.counterfactual_query(y, do={x: s})
            expect(ctx, p, want, f"P({y} | do({x}={s})) with heuristic {name}", tol=1e-7)
            expect(ctx, c, wantc, f"counterfactual {y} under do({x}={s}) with heuristic {name}", tol=1e-7)
            ctx.count("causal")
    ctx.rejects("a heuristic without the required arguments", lambda: VariableElimination(m, heuristic=lambda graph, nodes: []))
