"""C12 c-components, q-decomposition and q-factorisation of a structural causal model."""
import numpy as np

from .. import gen
from ..core import Skip
from ..obs import expect, snap_model, table
from ..ref import T

ID = "C12"
CASES = {"quick": 1500, "thorough": 45000}
NEED = {"partition": 675, "per_variable": 675, "qgraph": 675, "qbnet": 900, "q_of_component": 900, "interleaved": 60, "several_components": 206,
        "no_exogenous_parent": 100, "childless_exogenous": 100, "empirical": 150, "after_change": 100}
RULE = ("random structural causal models with 1-5 endogenous and 1-5 exogenous variables (shared, several, none or childless exogenous "
        "variables; components interleaved along the causal order); components compared with chaining of shared exogenous parents; the "
        "q-graph must be a DAG over the endogenous variables containing the endogenous arcs; the product of all q-factors must equal the exact "
        "observational distribution and the product over one component must equal the distribution of that component under intervention on the "
        "rest; q-factors estimated from data must be the empirical conditional frequencies. Distinct = (sizes, component structure, interleaving).")
ASSUMPTIONS = ["models hold multinomial tables (the default casting)", "conditioning configurations of probability 0 are not judged", "tolerance 1e-7"]


def case(ctx, rng, i):
    import networkx as nx
    big = i % 20 == 7
    scm = gen.random_scm(rng, (4, 5) if big else (1, 4), (2, 5) if big else (1, 4), 150 if big else 60, hi=2 if big else 3, exo_hi=4)
    m = gen.scm_obj(rng, scm, cast=True)
    before = snap_model(m)
    ctx.note(doms=scm.doms, parents=scm.parents, eq={v: a.tolist() for v, a in scm.eq.items()}, pu={u: p.tolist() for u, p in scm.pu.items()})
    endo, exo = set(scm.endo), set(scm.exo)
    comps = scm.ccomponents()
    full = [c | {u for u in exo if any(u in scm.parents[v] for v in c)} for c in comps]
    lonely = [u for u in exo if not any(u in scm.parents[v] for v in endo)]
    full += [{u} for u in lonely]
    fz = lambda cs: sorted(map(sorted, cs))
    with ctx.sut("c-components"):
        cc, ec, xc = [set(c) for c in m.ccomponents], [set(c) for c in m.endo_ccomponents], [set(c) for c in m.exo_ccomponents]
    ctx.check(fz(cc) == fz(full), f"components {fz(cc)} instead of {fz(full)}")
    ctx.check(fz([c for c in ec if c]) == fz(comps), f"endogenous components {fz(ec)} instead of {fz(comps)}")
    ctx.check(fz([c for c in xc if c]) == fz([c & exo for c in full if c & exo]), f"exogenous components {fz(xc)}")
    ctx.count("partition"), ctx.count("several_components", int(len(comps) > 1)), ctx.count("childless_exogenous", int(bool(lonely)))
    ctx.count("no_exogenous_parent", int(any(not set(scm.parents[v]) & exo for v in endo)))
    for c in full:
        for v in c:
            with ctx.sut("component of a variable"):
                a, b, d = set(m.get_ccomponent(v)), set(m.get_endo_ccomponent(v)), set(m.get_exo_ccomponent(v))
            ctx.check(a == c and b == c & endo and d == c & exo, f"component of {v}: {a}, {b}, {d} instead of {c}")
    ctx.count("per_variable")
    # helper graphs
    ctx.check(set(m.endo_graph.nodes) == endo and set(m.endo_graph.edges) == {(p, v) for p, v in scm.edges if p in endo}, f"endogenous graph {list(m.endo_graph.edges)}")
    ctx.check(set(m.exo_graph.edges) == {(p, v) for p, v in scm.edges if p in exo}, f"exogenous graph {list(m.exo_graph.edges)}")
    for v in scm.doms:
        pa = scm.parents.get(v, [])
        ch = [c for c in scm.endo if v in scm.parents[c]]
        ctx.check(set(m.get_edogenous_parents(v)) == set(pa) & endo and set(m.get_exogenous_parents(v)) == set(pa) & exo
                  and set(m.get_edogenous_children(v)) == set(ch) and list(m.get_exogenous_children(v)) == [], f"parents/children of {v}")
        ctx.check(m.is_endogenous(v) == (v in endo) and m.is_exogenous(v) == (v in exo), f"side of {v}")
    # q-graph
    with ctx.sut("q-graph"):
        g = m.qgraph
    ctx.check(set(g.nodes) == endo, f"q-graph nodes {list(g.nodes)}")
    ctx.check(nx.is_directed_acyclic_graph(g), f"q-graph has a cycle: {list(g.edges)}")
    ctx.check({(p, v) for p, v in scm.edges if p in endo} <= set(g.edges), f"q-graph {list(g.edges)} misses arcs of the model")
    for c in comps:                                           # inside a component every pair is linked (no independence is claimed)
        for x in c:
            for y in c:
                ctx.check(x == y or g.has_edge(x, y) or g.has_edge(y, x), f"q-graph does not link {x} and {y} of the same component")
        pa_c = {p for v in c for p in scm.parents[v] if p in endo} - c
        ctx.check(all(set(g.predecessors(v)) <= c | pa_c for v in c), f"q-graph parents of component {c} outside it: {[list(g.predecessors(v)) for v in c]}")
    ctx.count("qgraph")
    inter = False
    for c in comps:
        pos = [k for k, v in enumerate(nx.topological_sort(g)) if v in c]
        inter |= len(c) > 1 and pos[-1] - pos[0] >= len(c)
    ctx.count("interleaved", int(inter))
    # q-factorisation
    with ctx.sut("q-factorisation"):
        qf = m.get_qfactorisation()
        qb = m.get_qbnet()
    ctx.check(set(qf) == endo and set(qb.variables) == endo, f"q-factors of {sorted(qf)}")
    joint = scm.observational()
    prod = T({}, [1.0])
    for v in scm.endo:
        ctx.check(set(qf[v].left_vars) == {v} and set(qf[v].right_vars) == set(g.predecessors(v)), f"q-factor of {v} is {qf[v].name}")
        prod = prod.combine(table(qf[v]), "*")
    expect(ctx, prod, joint, "product of the q-factors", tol=1e-7, rtol=1e-7)
    prod = T({}, [1.0])
    for v in scm.endo:
        prod = prod.combine(table(qb.factors[v]), "*")
    expect(ctx, prod, joint, "joint of the q-network", tol=1e-7, rtol=1e-7)
    ctx.count("qbnet")
    for c in comps[:3]:
        v = sorted(c)[int(rng.integers(len(c)))]
        with ctx.sut(f"q-factors of {v}"):
            q = m.get_qfactors(v)
        ctx.check(set(q) == c, f"q-factors of the component of {v}: {sorted(q)} instead of {sorted(c)}")
        prod = T({}, [1.0])
        for x in q:
            prod = prod.combine(table(q[x]), "*")
        # Q[C](assignment) = P(C | do(the rest)); judged where the configuration of the other parents is possible
        rest = [x for x in scm.endo if x not in c]
        for _ in range(4):
            pt = gen.scm_point(rng, scm, [{}])[0]
            t, _z = scm.query([(x, x, 0) for x in c], [{x: pt[x] for x in rest}])
            obs = {x: pt[x] for x in prod.vars}
            want = t.at(pt)
            got = prod.at(obs)
            ctx.check(abs(got - want) < 1e-7, f"Q of component {sorted(c)} at {pt}: {got} instead of P(component | do(rest)) = {want}")
        ctx.count("q_of_component")
    ctx.seen(len(endo), len(exo), tuple(sorted(len(c) for c in comps)), inter, bool(lonely))
    # from data
    if i % 5 == 2:
        import pandas as pd
        rows = gen.endo_rows(rng, scm, int(rng.integers(5, 60)))
        df = pd.DataFrame(rows)[[v for v in gen.choose(rng, list(scm.endo), len(endo))]]
        df = gen.other_columns(rng, gen.column_types(rng, df, ctx), ctx)
        with ctx.sut("q-factorisation from data"):
            qd = m.get_qfactorisation(df)
        for v in qd:
            pre = list(g.predecessors(v))
            ctx.check(set(qd[v].domain) == set(pre) | {v} and set(qd[v].right_vars) == set(pre), f"empirical q-factor {qd[v].name}")
            for r in rows[:15]:
                n = sum(all(q[x] == r[x] for x in pre) for q in rows)
                k = sum(all(q[x] == r[x] for x in pre + [v]) for q in rows)
                x = float(qd[v].get_value(**{w: r[w] for w in pre + [v]}))
                ctx.check(abs(x - k / n) < 1e-7, f"empirical q-factor {qd[v].name} at {r}: {x} instead of {k}/{n}")
        ctx.count("empirical")
    ctx.check(snap_model(m) == before, "the decomposition changed the model")
    if rng.random() < .25:                                    # the same object with other exogenous distributions
        pu = {u: gen.simplex(rng, len(d)) + 1e-3 for u, d in scm.exo.items()}
        new = scm.with_pu({u: p / p.sum() for u, p in pu.items()})
        with ctx.sut("q-factorisation after replacing exogenous distributions of the same model"):
            for u in scm.exo:
                m.set_factor(u, gen.factor_obj(rng, scm.doms, [u], new.pu[u], left=[u]))
            qf, qb = m.get_qfactorisation(), m.get_qbnet()
        a, b = T({}, [1.0]), T({}, [1.0])
        for v in scm.endo:
            a, b = a.combine(table(qf[v]), "*"), b.combine(table(qb.factors[v]), "*")
        want = new.observational()
        expect(ctx, a, want, "product of the q-factors after the exogenous distributions were replaced", tol=1e-7, rtol=1e-7)
        expect(ctx, b, want, "joint of the q-network after the exogenous distributions were replaced", tol=1e-7, rtol=1e-7)
        ctx.count("after_change")
    if i < 4:
        ctx.sample({"parents": scm.parents, "components": fz(comps), "qgraph": list(g.edges)})
