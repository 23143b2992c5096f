"""C24 transformed models denote what the transformation says: renaming, copies, submodels, interventions, conversions, fusion."""
import numpy as np

from .. import gen
from ..obs import expect, snap_model
from ..ref import RefBN, T

ID = "C24"
CASES = {"quick": 700, "thorough": 30000}
NEED = {"rename_bn": 157, "rename_scm": 157, "partial_renaming": 98, "swap_renaming": 80, "copy": 315, "submodel": 250, "intervention": 157, "nested_intervention": 80, "to_bnet": 157, "from_model": 200, "fusion": 100,
        "composed": 110, "structure_queries": 315, "dag_string": 200, "network_fusion": 250, "fusion_refused": 250, "kinds_refused": 150}
RULE = ("random Bayesian networks and structural causal models (equations or tables, every backend); random total, partial and permuting renamings, ancestral submodels, single, multiple and "
        "repeated interventions, casts, conversions in both directions, fusions of twin models on their roots, and compositions of several transformations; graph, domains, endogenous sets and every table of "
        "the result are compared with the transformed reference. Distinct = (transformation, kind, backend, sizes).")
ASSUMPTIONS = ["renamings do not map two variables to one name", "submodels are taken on sets that contain the parents of their members"]


def judge(ctx, m, spec, what, endo=None, cls=None):
    ctx.check(set(m.variables) == set(spec.vars), f"{what}: variables {sorted(m.variables)} instead of {sorted(spec.vars)}")
    ctx.check(set(m.graph.edges) == set(spec.edges), f"{what}: arcs {sorted(m.graph.edges)} instead of {sorted(spec.edges)}")
    ctx.check(set(m.factors) == set(spec.vars) and set(m.domains) == set(spec.vars), f"{what}: factors of {sorted(m.factors)}")
    for v in spec.vars:
        f = m.factors[v]
        ctx.check(f is not None and set(f.left_vars) == {v} and set(f.right_vars) == set(spec.parents[v]), f"{what}: factor of {v} is {f.name if f is not None else None}")
        ctx.check(sorted(map(repr, m.domains[v])) == sorted(map(repr, spec.doms[v])), f"{what}: states of {v}: {m.domains[v]}")
        ctx.check(m.varsizes[v] == len(spec.doms[v]), f"{what}: size of {v}")
        f = f.to_multinomial() if hasattr(f, "to_multinomial") else f
        expect(ctx, f, T({w: spec.doms[w] for w in spec.parents[v] + [v]}, spec.cpt[v]), f"{what}: {f.name}", tol=1e-12)
    if endo is not None:
        ctx.check(set(m.endogenous) == set(endo) and set(m.exogenous) == set(spec.vars) - set(endo), f"{what}: endogenous {sorted(m.endogenous)} instead of {sorted(endo)}")
        ctx.check(all(m.is_endogenous(v) == (v in endo) and m.is_exogenous(v) == (v not in endo) for v in spec.vars), f"{what}: roles")
    if cls is not None:
        ctx.check(type(m) is cls, f"{what}: a {type(m).__name__}")


def structure(ctx, m, spec, what):
    for v in spec.vars:
        pa, ch = set(spec.parents[v]), {w for w in spec.vars if v in spec.parents[w]}
        ctx.check(set(m.get_parents(v)) == pa and set(m.get_children(v)) == ch, f"{what}: parents/children of {v}")
        mb = pa | ch | {p for c in ch for p in spec.parents[c]}
        ctx.check(set(m.markov_blanket(v)) == mb - {v} and len(m.markov_blanket(v)) == len(mb - {v}), f"{what}: Markov blanket of {v}: {m.markov_blanket(v)} instead of {sorted(mb - {v})}")
        ctx.check(m.get_domains(v) == {v: m.domains[v]} and m.get_varsizes([v]) == {v: len(spec.doms[v])}, f"{what}: domain of {v}")
    ctx.check(m.get_factors(*spec.vars) == [m.factors[v] for v in spec.vars] and len(m.factor_list) == len(spec.vars), f"{what}: factor lists")
    ctx.count("structure_queries")


def renamed(spec, mp):
    nm = lambda v: mp.get(v, v)
    return RefBN({nm(v): d for v, d in spec.doms.items()}, {nm(v): [nm(p) for p in spec.parents[v]] for v in spec.vars}, {nm(v): spec.cpt[v] for v in spec.vars})


def intervened(spec, do):
    par = {v: ([] if v in do else spec.parents[v]) for v in spec.vars}
    cpt = {v: (np.array([float(s == do[v]) for s in spec.doms[v]]) if v in do else spec.cpt[v]) for v in spec.vars}
    return RefBN(spec.doms, par, cpt)


def ancestral(rng, spec, seed_set):
    out, todo = set(), list(seed_set)
    while todo:
        v = todo.pop()
        if v not in out:
            out.add(v)
            todo += spec.parents[v]
    return [v for v in spec.vars if v in out]


def random_mapping(ctx, rng, vs):
    k = rng.integers(3)
    if k == 0:
        return {v: f"R{j}" for j, v in enumerate(gen.choose(rng, vs, len(vs)))}
    if k == 1:
        ctx.count("partial_renaming")
        return {v: f"{v}x" if f"{v}x" not in vs else f"{v}xx" for v in gen.choose(rng, vs)}
    sub = gen.choose(rng, vs, min(len(vs), int(rng.integers(2, 4))))
    ctx.count("swap_renaming")
    return {v: sub[(j + 1) % len(sub)] for j, v in enumerate(sub)}           # permutes names among the variables


def fuse_networks(ctx, rng, spec, m, scm):
    """networks that share roots; common variables that are not roots, and models of different kinds, are refused"""
    from bcause.models import BayesianNetwork
    from bcause.models.transform.combination import fusion_roots
    roots = [v for v in spec.vars if not spec.parents[v]]
    inner = [v for v in spec.vars if spec.parents[v]]
    on = gen.choose(rng, roots, kmin=1)
    worlds = [{v: f"{v}w{k}" for v in spec.vars if v not in on} for k in range(2)]
    with ctx.sut("fusing networks"):
        b = BayesianNetwork(m.graph, dict(m.factors)) if scm is None else m.to_bnet()
        ms = [b] + [b.rename_vars(dict(w)) for w in worlds]
    if len(on) < len(roots) or inner:
        with ctx.sut(f"fusion of three networks on {on}"):
            fm = fusion_roots(ms, on=list(on))
        parts = [spec] + [renamed(spec, w) for w in worlds]
        uni = RefBN(*[{k: x for p in reversed(parts) for k, x in getattr(p, a).items()} for a in ("doms", "parents", "cpt")])
        if np.prod([len(d) for d in uni.doms.values()]) < 20000:
            judge(ctx, fm, uni, f"fusion of three networks on {on}", None, BayesianNetwork)
        ctx.count("network_fusion")
    if inner:
        v = inner[rng.integers(len(inner))]
        order = [*on, v] if rng.random() < .5 else [v, *on]
        k = [b, b.rename_vars({w: f"{w}x" for w in spec.vars if w not in order})]
        snaps = [snap_model(x) for x in k]
        ctx.rejects(f"fusion on {order}, of which {v} is not a root", lambda: fusion_roots(k, on=order))
        # a root in one of the models only
        if inner:
            solo = BayesianNetwork(spec_graph([v]), {v: gen.factor_obj(rng, {v: spec.doms[v]}, [v], np.full(len(spec.doms[v]), 1 / len(spec.doms[v])), left=[v])})
            for pair in ([solo, b], [b, solo]):
                ctx.rejects(f"fusion on {v}, a root in one model only", lambda: fusion_roots(pair, on=[v]))
        ctx.check([snap_model(x) for x in k] == snaps, "a refused fusion changed a model")
        ctx.count("fusion_refused")
    if scm is not None:
        ctx.rejects("fusion of a network and a structural model", lambda: fusion_roots([m, b], on=[r for r in roots][:1]))
        ctx.count("kinds_refused")


def spec_graph(vs):
    import networkx as nx
    g = nx.DiGraph()
    g.add_nodes_from(vs)
    return g


def case(ctx, rng, i):
    from bcause.models import BayesianNetwork
    from bcause.models.cmodel import StructuralCausalModel
    from bcause.models.transform.combination import fusion_roots
    from bcause.models.transform.conversion import causal_to_bnet, bnet_to_causal
    from bcause.util.graphutils import str2dag
    vt = gen.VTYPES[rng.integers(4)] if rng.random() < .4 else None
    scm = None
    if i % 2:
        scm = gen.random_scm(rng, (1, 4), (1, 3), 60)
        spec = scm.bn()
        cast = bool(rng.random() < .5)
        m = gen.scm_obj(rng, scm, vt, cast=cast)
        endo, cls = set(scm.endo), StructuralCausalModel
    else:
        spec = gen.random_bn(rng, 1, 6, 800)
        m = gen.bn_obj(rng, spec, vt)
        endo, cls = None, BayesianNetwork
    ctx.note(doms=spec.doms, parents=spec.parents, scm=scm is not None, vtype=vt)
    snap = snap_model(m)
    judge(ctx, m, spec, "model", endo, cls)
    structure(ctx, m, spec, "model")
    kind = "scm" if scm is not None else "bn"

    mp = random_mapping(ctx, rng, spec.vars)
    ctx.note(renaming=mp)
    with ctx.sut(f"renaming {mp}"):
        r = m.rename_vars(dict(mp))
    rs = renamed(spec, mp)
    judge(ctx, r, rs, f"renaming {mp}", None if endo is None else {mp.get(v, v) for v in endo}, cls)
    ctx.count(f"rename_{kind}"), ctx.seen("rename", kind, vt, len(spec.vars), len(mp))
    inv = {b: a for a, b in mp.items()}
    with ctx.sut("renaming back"):
        judge(ctx, r.rename_vars(inv), spec, f"renaming {mp} and back", endo, cls)
    with ctx.sut("copying"):
        c = m.copy()
    judge(ctx, c, spec, "copy", endo, cls)
    ctx.check(c is not m, "the copy is the model itself")
    ctx.count("copy")
    nodes = ancestral(rng, spec, gen.choose(rng, spec.vars, kmin=1))
    sub = RefBN({v: spec.doms[v] for v in nodes}, {v: spec.parents[v] for v in nodes}, {v: spec.cpt[v] for v in nodes})
    sendo = None if endo is None else endo & set(nodes)
    if endo is None or sendo:
        with ctx.sut(f"submodel on {nodes}"):
            s = m.submodel(gen.choose(rng, nodes, len(nodes)))
        judge(ctx, s, sub, f"submodel on {nodes}", sendo, cls)
        ctx.count("submodel"), ctx.seen("submodel", kind, len(nodes), len(spec.vars))
    if scm is None:
        det = RefBN(spec.doms, spec.parents, {v: spec.cpt[v] if not spec.parents[v] else np.eye(len(spec.doms[v]))[rng.integers(0, len(spec.doms[v]), spec.cpt[v].shape[:-1])] for v in spec.vars})
        b = gen.bn_obj(rng, det, vt)
        roots = {v for v in det.vars if not det.parents[v]}
        if len(roots) < len(det.vars):
            for nm, fn in (("a causal model from a network", lambda: StructuralCausalModel.from_model(b)), ("a network seen as a causal model", lambda: bnet_to_causal(b))):
                with ctx.sut(nm):
                    q = fn()
                judge(ctx, q, det, nm, set(det.vars) - roots, StructuralCausalModel)
            ctx.count("from_model")
        with ctx.sut("the string of a DAG"):
            g = str2dag(m.get_dag_str())
            b2 = BayesianNetwork(m.get_dag_str(), m.factors)
        ctx.check(set(g.nodes) == set(spec.vars) and set(g.edges) == set(spec.edges), f"the string of the DAG gives {sorted(g.edges)} over {sorted(g.nodes)}")
        judge(ctx, b2, spec, "network built from the string of its DAG", None, BayesianNetwork)
        ctx.count("dag_string")
    else:
        for nm, fn in (("to_bnet", lambda: m.to_bnet()), ("causal_to_bnet", lambda: causal_to_bnet(m))):
            with ctx.sut(nm):
                b = fn()
            judge(ctx, b, spec, nm, None, BayesianNetwork)
        ctx.count("to_bnet")
        if all(spec.parents[v] for v in endo):
            with ctx.sut("from_model"):
                q = StructuralCausalModel.from_model(m)
            judge(ctx, q, spec, "from_model", endo, StructuralCausalModel)
            ctx.count("from_model")
        do = {v: gen.pick_state(rng, scm.endo[v]) for v in gen.choose(rng, list(endo), int(rng.integers(1, min(3, len(endo)) + 1)))}
        ctx.note(do=do)
        with ctx.sut(f"intervention {do}"):
            d = m.intervention(**do)
        judge(ctx, d, intervened(spec, do), f"intervention {do}", endo, StructuralCausalModel)
        ctx.count("intervention"), ctx.seen("intervention", vt, len(do), len(spec.vars))
        if rng.random() < .5:
            do2 = {v: gen.pick_state(rng, scm.endo[v]) for v in gen.choose(rng, list(endo), 1)}
            with ctx.sut(f"second intervention {do2}"):
                d2 = d.intervention(**do2)
            judge(ctx, d2, intervened(spec, {**do, **do2}), f"intervention {do} then {do2}", endo, StructuralCausalModel)
            ctx.count("nested_intervention")
        if rng.random() < .6:
            with ctx.sut("composition"):
                z = m.intervention(**do).rename_vars(dict(mp)).to_multinomial().copy()
            judge(ctx, z, renamed(intervened(spec, do), mp), f"intervention {do}, renaming {mp}, cast, copy", {mp.get(v, v) for v in endo}, StructuralCausalModel)
            ctx.count("composed")
        if rng.random() < .6:
            # twin network: second world renamed, exogenous variables shared
            tw = {v: f"{v}twin" for v in endo}
            m2 = m.intervention(**do).rename_vars(tw)
            on = list(scm.exo)
            with ctx.sut("fusion on the exogenous variables"):
                fm = fusion_roots([m, m2], on=on, endogenous=list(endo) + list(tw.values()))
            w2 = renamed(intervened(spec, do), tw)
            uni = RefBN({**spec.doms, **w2.doms}, {**w2.parents, **spec.parents}, {**w2.cpt, **spec.cpt})
            judge(ctx, fm, uni, f"fusion with the world under {do}", endo | set(tw.values()), StructuralCausalModel)
            ctx.count("fusion"), ctx.seen("fusion", vt, len(do), len(spec.vars))
    fuse_networks(ctx, rng, spec, m, scm)
    ctx.check(snap_model(m) == snap, "a transformation changed the model it was applied to")
    if i < 3:
        ctx.sample({"vars": spec.vars, "renaming": mp, "submodel": nodes})
