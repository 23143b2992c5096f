"""C29 randomly generated factors and models are valid, on the requested domains, and really random."""
import numpy as np

from .. import gen
from ..obs import snap_factor, snap_graph, snap_model, table
from ..ref import RefBN, idx_of

ID = "C29"
CASES = {"quick": 900, "thorough": 30000}
NEED = {"multinomial": 500, "joint": 100, "conditional": 150, "positive": 150, "uniform": 250, "deterministic": 250, "scm_filled": 50, "equations_only": 13, "marginals_only": 12,
        "scm_randomised": 140, "in_place": 60, "copied": 60, "bn_randomised": 150, "queries_after": 200, "assignments": 300, "iterated": 150, "spread": 20, "fresh": 300, "extra_domains": 60,
        "backend_kept": 30, "many_parents": 12}
RULE = ("random domains (1-5 variables, 1-5 states of any type), splits into conditioned and conditioning variables and backends for random_multinomial, uniform_multinomial and "
        "random_deterministic; random graphs for the filling and randomising methods of structural models and networks, in place or not, for chosen variables; every result read "
        "cell by cell: domains, sides, one distribution per configuration, positivity if requested, one state per configuration for equations, untouched variables unchanged, new draws "
        "differ, every state comes up, and queries on the result agree with enumeration of its tables. Distinct = (generator, variables, split, backend, options).")
ASSUMPTIONS = ["two draws of a continuous distribution are never equal", "a state missing from 300 draws with probability at least 1/4 each counts as never drawn", "4 of 60 equations of a variable with 16 configurations of its parents being constant counts as ignoring them"]


def judge(ctx, f, dom, right, what, positive=False, kind="random", vtype=None, order=True):
    ctx.check({v: list(d) for v, d in f.domain.items()} == {v: list(d) for v, d in dom.items()}, f"{what}: domain {f.domain} instead of {dom}")
    ctx.check(set(f.right_vars) == set(right) and set(f.left_vars) == set(dom) - set(right), f"{what}: sides {f.left_vars} | {f.right_vars}, requested {right} on the right")
    if vtype:
        ctx.check(f.vtype == vtype, f"{what}: stored as {f.vtype} instead of {vtype}")
    t = table(f)
    a = t.a
    ctx.check(np.isfinite(a).all() and (a >= 0).all() and (a <= 1 + 1e-12).all(), f"{what}: values {a.tolist()}")
    ax = tuple(k for k, v in enumerate(t.vars) if v not in right)
    s = a.sum(axis=ax)
    ctx.check(np.allclose(s, 1, atol=1e-9), f"{what}: sums over {[t.vars[k] for k in ax]} are {np.ravel(s).tolist()}")
    n = int(np.prod([len(dom[v]) for v in dom if v not in right]))
    if positive:
        ctx.check((a > 0).all(), f"{what}: zero cells although they were excluded: {a.tolist()}")
    if kind == "det":
        ctx.check(np.isin(a, [0., 1.]).all(), f"{what}: values {a.tolist()} of a deterministic table")
    if kind == "unif":
        ctx.check(np.allclose(a, 1 / n, atol=1e-12), f"{what}: values {a.tolist()} of a uniform table")
    return t


def case(ctx, rng, i):
    from bcause.factors.mulitnomial import random_deterministic, random_multinomial, uniform_multinomial
    from bcause.util.domainutils import random_assignment
    k = int(rng.integers(1, 5))
    vs = gen.names(rng, k)
    dom = {v: gen.states(rng, v, int(rng.integers(1, 6 if k < 4 else 4))) for v in vs}
    right = gen.choose(rng, vs, int(rng.integers(0, k)))
    vt = [None, *gen.VTYPES][rng.integers(5)]
    kw = {} if vt is None else {"vtype": vt}
    if right or rng.random() < .5:
        kw["right_vars"] = list(right)
    ctx.note(dom=dom, right=right, vtype=vt)
    ds = repr(dom), repr(kw)
    pos = rng.random() < .5
    with ctx.sut(f"random factor {right} {vt}"):
        f = random_multinomial(dom, allow_zero=False, **kw) if pos else random_multinomial(dom, **kw)
        f2 = random_multinomial(dom, **kw)
        u = uniform_multinomial(dom, **kw)
    a = judge(ctx, f, dom, right, "random distribution", pos, vtype=vt)
    b = judge(ctx, f2, dom, right, "random distribution", vtype=vt)
    if any(len(dom[v]) > 1 for v in vs if v not in right):
        ctx.check(not np.array_equal(a.aligned(dom), b.aligned(dom)), "two random distributions are equal")
        if right and all(len(dom[v]) > 1 for v in right):
            m = np.moveaxis(a.a, [a.vars.index(v) for v in right], range(len(right))).reshape(int(np.prod([len(dom[v]) for v in right])), -1)
            ctx.check(len({tuple(x) for x in m}) == len(m), f"configurations of {right} share one distribution: {m.tolist()}")
        ctx.count("fresh")
    judge(ctx, u, dom, right, "uniform distribution", kind="unif", vtype=vt)
    ctx.count("multinomial", 2), ctx.count("uniform"), ctx.count("positive", int(pos)), ctx.count("conditional" if right else "joint")
    left = [v for v in vs if v not in right]
    if len(left) == 1 or rng.random() < .3:
        with ctx.sut("random equation"):
            d = random_deterministic(dom, **kw)
        judge(ctx, d, dom, right, "random equation", kind="det", vtype=vt)
        ctx.count("deterministic")
    ctx.check((repr(dom), repr(kw)) == ds, "generating a factor changed the arguments of the caller")
    ctx.seen("factor", k, len(right), vt, pos, tuple(len(dom[v]) for v in vs))
    # random assignments
    with ctx.sut("random assignment"):
        r = random_assignment(dom)
    ctx.check(set(r) == set(dom) and all(any(x == r[v] for x in dom[v]) for v in dom), f"random assignment {r} of {dom}")
    it = gen.choose(rng, vs, int(rng.integers(0, k + 1)))
    with ctx.sut(f"random assignment for all states of {it}"):
        rs = random_assignment(dom, it)
    ctx.check(len(rs) == int(np.prod([len(dom[v]) for v in it])) and len({tuple(idx_of(dom[v], x[v]) for v in it) for x in rs}) == len(rs)
              and all(list(x) == list(dom) and all(any(y == x[v] for y in dom[v]) for v in dom) for x in rs), f"random assignments over the states of {it}: {rs}")
    ctx.count("assignments"), ctx.count("iterated", int(bool(it)))
    if i % 25 == 0:
        v = vs[0]
        d1 = {v: gen.states(rng, v, int(rng.integers(2, 5)))}
        n = np.zeros(len(d1[v]))
        m = np.zeros(len(d1[v]))
        with ctx.sut("repeated generation"):
            for _ in range(300):
                n += table(random_deterministic(d1)).aligned(d1)
                m[idx_of(d1[v], random_assignment(d1)[v])] += 1
        ctx.check((n > 0).all() and (m > 0).all(), f"of {d1[v]} only some states come up: {n.tolist()}, {m.tolist()}")
        ctx.count("spread")
        many_parents(ctx, rng)
    # models
    if i % 2:
        from bcause.models import BayesianNetwork
        spec = gen.random_bn(rng, 1, 5, 500, cpt_kinds=["pos"])
        g = gen.dag_obj(rng, spec.vars, spec.edges)
        m = BayesianNetwork(g) if rng.random() < .5 else gen.bn_obj(rng, spec)
        dd = {v: list(spec.doms[v]) for v in gen.choose(rng, spec.vars, len(spec.vars))}
        if rng.random() < .3:
            dd["unusedName"] = [0, 1, 2]
            ctx.count("extra_domains")
        s = repr(dd)
        ctx.note(doms=spec.doms, parents=spec.parents)
        old = {v: (snap_factor(m.factors[v]) if v in m.factors else None) for v in spec.vars}
        gs = sorted(m.graph.edges)
        with ctx.sut("randomising the factors of a network"):
            m.randomize_factors(dd)
        ctx.check(repr(dd) == s and sorted(m.graph.edges) == gs and set(m.variables) == set(spec.vars), "randomising changed the graph or the domains of the caller")
        cpt = {}
        for v in spec.vars:
            f = m.factors[v]
            t = judge(ctx, f, {x: spec.doms[x] for x in f.domain}, spec.parents[v], f"randomised factor of {v}")
            ctx.check(list(f.left_vars) == [v], f"randomised factor of {v} is {f}")
            if len(spec.doms[v]) > 1:
                ctx.check(snap_factor(f) != old[v], f"factor of {v} not randomised")
            cpt[v] = np.array(t.aligned({x: spec.doms[x] for x in spec.parents[v] + [v]}))
        ctx.check({v: list(d) for v, d in m.domains.items()} == spec.doms or all(list(m.domains[v]) == spec.doms[v] for v in spec.vars), f"domains {m.domains}")
        after(ctx, rng, m, RefBN(spec.doms, spec.parents, cpt))
        ctx.count("bn_randomised"), ctx.seen("bn", len(spec.vars), len(spec.edges))
        return
    from bcause.models.cmodel import StructuralCausalModel
    scm = gen.random_scm(rng, (1, 4), (1, 3), 100, p_kinds=["pos", "dir"])
    doms, parents = scm.doms, scm.all_parents
    ctx.note(doms=doms, parents=parents)
    style = i // 2 % 3
    if style == 0:
        g = gen.dag_obj(rng, list(doms), scm.edges)
        m = StructuralCausalModel(g)
        dd = {v: list(doms[v]) for v in gen.choose(rng, list(doms), len(doms))}
        if rng.random() < .3:
            dd["unusedName"] = [0, 1, 2]
            ctx.count("extra_domains")
        s, gs = repr(dd), snap_graph(g)
        how = int(rng.integers(4))
        with ctx.sut("filling a structural model"):
            if how < 2:
                m.fill_random_factors(dd)
            else:
                m.fill_random_equations(dd)
                if how == 2:
                    m.fill_random_marginals(dd)
        ctx.check(repr(dd) == s and snap_graph(g) == gs, "filling changed the graph or the domains of the caller")
        for v in scm.endo:
            t = judge(ctx, m.factors[v], {x: doms[x] for x in m.factors[v].domain}, parents[v], f"random equation of {v}", kind="det")
            ctx.check(set(t.vars) == {v, *parents[v]} and list(m.factors[v].left_vars) == [v], f"random equation of {v} is {m.factors[v]}")
        if how < 3:
            for u in scm.exo:
                judge(ctx, m.factors[u], {u: doms[u]}, [], f"random distribution of {u}")
            ctx.count("scm_filled"), ctx.count("marginals_only", int(how == 2))
        else:
            ctx.check(all(m.factors.get(u) is None for u in scm.exo), f"filling only the equations also set {m.factors}")
            with ctx.sut("filling the marginals"):
                eqs = {v: snap_factor(m.factors[v]) for v in scm.endo}
                m.fill_random_marginals(dd)
            ctx.check({v: snap_factor(m.factors[v]) for v in scm.endo} == eqs, "filling the marginals changed the equations")
            for u in scm.exo:
                judge(ctx, m.factors[u], {u: doms[u]}, [], f"random distribution of {u}")
            ctx.count("equations_only")
        ctx.check(set(m.endogenous) == set(scm.endo) and set(m.exogenous) == set(scm.exo), f"endogenous {m.endogenous}, exogenous {m.exogenous}")
        ctx.seen("fill", len(scm.endo), len(scm.exo), how)
    else:
        vt = [None, None, *gen.VTYPES][rng.integers(6)]
        m0 = m = gen.scm_obj(rng, scm, vtype=vt, cast=True)
        which = gen.choose(rng, list(scm.exo), kmin=0)
        inp, zero = rng.random() < .5, rng.random() < .5
        before = {v: snap_factor(m.factors[v]) for v in doms}
        snap = snap_model(m)
        with ctx.sut(f"randomising {which}, in place {inp}"):
            m = m0.randomize_factors(gen.as_target(rng, which) if len(which) > 1 else which, in_place=inp, allow_zero=zero)
        if inp:
            ctx.check(m is m0, "randomising in place returned another model")
        else:
            ctx.check(m is not m0 and snap_model(m0) == snap, "randomising a copy changed the model")
        ctx.check(set(m.variables) == set(doms) and set(m.endogenous) == set(scm.endo) and sorted(m.graph.edges) == sorted(m0.graph.edges), "randomising changed the variables or the graph")
        for v in doms:
            if v in which:
                judge(ctx, m.factors[v], {x: doms[x] for x in m.factors[v].domain}, parents[v], f"randomised factor of {v}", positive=not zero, vtype=before[v][1] if before[v][0] == "MultinomialFactor" else None)
                ctx.check(set(m.factors[v].domain) == {v, *parents[v]}, f"randomised factor of {v} is {m.factors[v]}")
                if len(doms[v]) > 1:
                    ctx.check(snap_factor(m.factors[v]) != before[v], f"factor of {v} not randomised")
                ctx.count("backend_kept", int(vt is not None and vt != "numpy"))
            else:
                ctx.check(snap_factor(m.factors[v]) == before[v], f"factor of {v} changed although only {which} were randomised")
        ctx.count("scm_randomised"), ctx.count("in_place" if inp else "copied")
        ctx.seen("randomize", len(scm.endo), len(scm.exo), len(which), inp, zero, vt)
        if vt not in (None, "numpy"):
            return
    cpt = {v: np.array(table(m.factors[v].to_multinomial() if hasattr(m.factors[v], "to_multinomial") else m.factors[v]).aligned({x: doms[x] for x in parents[v] + [v]})) for v in doms}
    order = list(scm.exo) + list(scm.endo)
    after(ctx, rng, m, RefBN({v: doms[v] for v in order}, {v: parents[v] for v in order}, cpt))
    if i < 6:
        ctx.sample({"parents": parents, "style": style})


def many_parents(ctx, rng):
    """equations of variables with many parents: the configurations and the variables are drawn independently of each other."""
    import networkx as nx
    from bcause.factors.mulitnomial import random_deterministic, random_multinomial
    from bcause.models.cmodel import StructuralCausalModel
    vs = gen.names(rng, int(rng.integers(5, 8)))
    pa, ch = vs[:-2], vs[-2:]
    dom = {v: gen.states(rng, v, 2) for v in vs}
    n = 2 ** len(pa)
    how = int(rng.integers(3))
    rounds = 60
    ctx.note(dom=dom, parents=pa, children=ch, how=how)
    draws = {c: [] for c in ch}
    with ctx.sut("equations of variables with many parents"):
        for _ in range(rounds):
            if how == 0:
                fs = {c: random_deterministic({x: dom[x] for x in gen.choose(rng, pa + [c], len(pa) + 1)}, right_vars=pa) for c in ch}
            else:
                m = StructuralCausalModel(nx.DiGraph([(p, c) for p in pa for c in ch]))
                m.fill_random_equations(dom) if how == 1 else m.fill_random_factors(dom)
                fs = m.factors
            for c in ch:
                t = table(fs[c])
                draws[c].append(np.argmax(t.aligned({x: dom[x] for x in pa + [c]}).reshape(n, 2), axis=1))
    for c in ch:
        d = np.array(draws[c])                              # rounds x configurations of a fair coin
        ctx.check((d == d[:, :1]).all(axis=1).sum() < 4, f"an equation of {c} usually ignores all of its {len(pa)} parents")
        same = (d[:, :, None] == d[:, None, :]).all(axis=0)
        ctx.check(same.sum() == n, f"in {rounds} random equations of {c} two configurations of {pa} always get the same state")
        ctx.check(not ((d[:, :, None] != d[:, None, :]).all(axis=0)).any(), f"in {rounds} random equations of {c} two configurations of {pa} always get different states")
        ctx.check(all(0 < s < rounds for s in d.sum(axis=0)), f"in {rounds} random equations of {c} a configuration always gets the same state")
        ctx.check(len({tuple(x) for x in d}) > rounds // 2, f"random equations of {c} repeat")
        for k, p in enumerate(pa):                          # every parent matters somewhere
            a = d.reshape([rounds] + [2] * len(pa))
            ctx.check((np.take(a, 0, axis=k + 1) != np.take(a, 1, axis=k + 1)).any(), f"random equations of {c} never depend on {p}")
    x, y = (np.array(draws[c]) for c in ch)
    ctx.check(not (x == y).all(axis=1).any() if n >= 32 else not (x == y).all(), f"{ch} get the same equation")
    with ctx.sut("distributions given many parents"):
        f = random_multinomial({x: dom[x] for x in pa + ch[:1]}, right_vars=pa)
    a = table(f).aligned({x: dom[x] for x in pa + ch[:1]}).reshape(n, 2)
    ctx.check(len({tuple(r) for r in a.tolist()}) == n, f"configurations of {pa} share one distribution")
    ctx.count("many_parents"), ctx.seen("many", len(pa), how)


def after(ctx, rng, m, spec):
    from bcause.inference.probabilistic.elimination import VariableElimination
    from ..obs import expect
    t = gen.choose(rng, spec.vars, 1)
    p = gen.bn_point(rng, spec)
    ev = {v: p[v] for v in gen.choose(rng, [v for v in spec.vars if v not in t], int(rng.integers(0, 2)))}
    want, z = spec.posterior(t, ev)
    if want is None:
        return
    with ctx.sut(f"query {t} given {ev} on the random model"):
        r = VariableElimination(m).query(t[0], evidence=ev)
    expect(ctx, r, want, f"posterior of {t} given {ev} in the random model")
    ctx.count("queries_after")
