"""C22 ill-formed input is refused, and a refusal leaves the model and the engine as they were."""
import numpy as np

from .. import gen
from ..obs import expect, snap_model, snap_factor, table
from ..ref import T

ID = "C22"
CASES = {"quick": 400, "thorough": 20000}
NEED = {"factor_refusals": 3000, "model_refusals": 1500, "graph_refusals": 400, "query_refusals": 900, "causal_refusals": 450, "unchanged_after": 3000, "answers_after": 700,
        "accepted_valid": 400, "construction_refusals": 180, "endogenous_not_degenerate": 40, "child_domain": 60, "compiled_kept": 500}
RULE = ("random valid models; one random ill-formed item at a time (malformed domains and value lists, side declarations that do not partition the variables, cyclic or undirected graphs, factors with "
        "wrong parents, wrong variable, other states than the model, the parents or the children, non-degenerate equations, unknown or repeated variables, overlapping roles, states outside the domain) "
        "must be refused by an exception; afterwards the model must be bit-identical, and the same engine must still answer a valid query exactly; the corresponding valid item must be accepted. "
        "Distinct = (kind of ill-formed item, backend, sizes, kind of model).")
ASSUMPTIONS = ["which exception is raised is not judged", "a state outside the domain is only judged for evidence on a parent or child of the target", "nested value lists of the wrong shape are judged for the numpy backend only"]


def bad_factors(rng, doms, vt):
    """(name, thunk) of factors that must not be constructible."""
    from bcause.factors import MultinomialFactor as M, DeterministicFactor as D
    d = {v: list(s) for v, s in doms.items()}
    vs = list(d)
    n = int(np.prod([len(s) for s in d.values()]))
    good = list(rng.random(n))
    v = gen.pick_state(rng, vs)
    out = [("a domain that is not a dictionary", lambda: M(list(d.items()), good, vtype=vt)),
           ("a variable name that is not a string", lambda: M({**{k: s for k, s in d.items() if k != v}, 7: d[v]}, good, vtype=vt)),
           ("states that are not a list", lambda: M({**d, v: tuple(d[v])}, good, vtype=vt)),
           ("states of different types", lambda: M({**d, v: d[v][:-1] + ["other" if not isinstance(d[v][0], str) else 5]}, good, vtype=vt)),
           ("a name starting with an underscore", lambda: M({("_" + k if k == v else k): s for k, s in d.items()}, good, vtype=vt)),
           ("too few values", lambda: M(d, good[:-1], vtype=vt)),
           ("too many values", lambda: M(d, good + [.1], vtype=vt)),
           ("overlapping sides", lambda: M(d, good, left_vars=[v], right_vars=vs, vtype=vt)),
           ("sides that do not cover the variables", lambda: M(d, good, left_vars=[x for x in vs if x != v], right_vars=[], vtype=vt)),
           ("an unknown variable among the sides", lambda: M(d, good, left_vars=vs, right_vars=["Nope"], vtype=vt)),
           ("an unknown backend", lambda: M(d, good, vtype="nosuchstore"))]
    if len(vs) > 1:
        out += [("a degenerate factor of two variables", lambda: D(d, [d[v][0]] * n, left_vars=vs[:2], vtype=vt)),
                ("an equation with too few values", lambda: D(d, [d[v][0]] * (n // len(d[v]) + 1), left_vars=[v], vtype=vt))]
        if vt in (None, "numpy"):
            sh = [len(s) for s in d.values()]
            if sh != sh[::-1]:
                out.append(("nested values of the wrong shape", lambda: M(d, np.reshape(good, sh[::-1]), vtype=vt)))
    return out


def bad_factors_for(rng, m, spec, v, scm):
    """(name, factor thunk) that set_factor(v, .) has to refuse."""
    from bcause.factors import MultinomialFactor as M
    doms, pa = spec.doms, spec.parents[v]

    def cpt(names, child, dd=None, deg=None):
        dd = dd or doms
        shp = [len(dd[x]) for x in names if x != child] + [len(dd[child])]
        a = np.zeros(shp)
        a[..., 0] = 1.0
        return M({**{x: list(dd[x]) for x in names if x != child}, child: list(dd[child])}, a, left_vars=[child])
    out = []
    if pa:
        drop = gen.pick_state(rng, pa)
        out.append(("a factor without one of the parents", lambda: cpt([p for p in pa if p != drop] + [v], v)))
        p = gen.pick_state(rng, pa)
        out.append(("a factor with an extra state of a parent", lambda: cpt(pa + [v], v, {**doms, p: list(doms[p]) + [new_state(doms[p])]})))
        out.append(("a factor with other states of a parent", lambda: cpt(pa + [v], v, {**doms, p: [new_state(doms[p], k) for k in range(len(doms[p]))]})))
        out.append(("a joint factor of the variable and its parents", lambda: M({x: list(doms[x]) for x in pa + [v]}, np.full([len(doms[x]) for x in pa + [v]], .5))))
        out.append(("the factor of a parent", lambda: m.factors[p]))
        out.append(("a factor with the roles exchanged", lambda: cpt([x for x in pa + [v]], p)))
    others = [x for x in spec.vars if x != v and x not in pa]
    if others:
        o = gen.pick_state(rng, others)
        out.append(("a factor with a parent too many", lambda: cpt(pa + [o, v], v)))
        out.append(("the factor of another variable", lambda: cpt(pa + [o], o)))
    out.append(("a factor with an extra state of the variable", lambda: cpt(pa + [v], v, {**doms, v: list(doms[v]) + [new_state(doms[v])]})))
    out.append(("a factor with other states of the variable", lambda: cpt(pa + [v], v, {**doms, v: [new_state(doms[v], k) for k in range(len(doms[v]))]})))
    out.append(("a list of numbers", lambda: [.5, .5]))
    out.append(("nothing", lambda: None))
    if scm is not None and v in scm.endo and len(doms[v]) > 1:
        def nondeg():
            a = np.zeros([len(doms[p]) for p in pa] + [len(doms[v])])
            a[..., 0] = 1.0
            k = tuple(int(rng.integers(s)) for s in a.shape[:-1])
            a[k] = 1.0 / len(doms[v])
            return M({x: list(doms[x]) for x in pa + [v]}, a, left_vars=[v])
        out.append(("an equation that is not degenerate", nondeg))
    return out


def new_state(dom, k=0):
    x = dom[0]
    if isinstance(x, str):
        return type(x)("zz" + str(k))
    if isinstance(x, float):
        return type(x)(1000.5 + k)
    return np.int64(1000 + k) if isinstance(x, np.integer) else 1000 + k


def case(ctx, rng, i):
    import networkx as nx
    from bcause.models import BayesianNetwork
    from bcause.models.cmodel import StructuralCausalModel
    from bcause.inference.probabilistic.elimination import VariableElimination
    from bcause.inference.causal.elimination import CausalVariableElimination
    vt = gen.VTYPES[rng.integers(4)] if rng.random() < .5 else None
    kinds = ["range", "offset", "desc", "str", "strnum", "float", "neg"]
    scm = None
    if i % 2:
        scm = gen.random_scm(rng, (1, 3), (1, 3), 30, kinds=kinds, p_kinds=["pos", "dir"])
        spec = scm.bn()
        m = gen.scm_obj(rng, scm, vt)
    else:
        spec = gen.random_bn(rng, 1, 5, 300, kinds=kinds, cpt_kinds=["pos", "dir"])
        m = gen.bn_obj(rng, spec, vt)
    ctx.note(doms=spec.doms, parents=spec.parents, scm=scm is not None, vtype=vt)
    # --- factors
    v0 = gen.pick_state(rng, spec.vars)
    fd = {x: spec.doms[x] for x in spec.parents[v0] + [v0]}
    for name, fn in bad_factors(rng, fd, vt):
        ctx.rejects(f"{name} (domain {fd}, backend {vt})", fn)
        ctx.count("factor_refusals"), ctx.seen("factor", name, vt, len(fd))
    f = m.factors[v0]
    if type(f).__name__ == "MultinomialFactor":
        s0 = snap_factor(f)
        ctx.rejects("a state outside the domain", lambda: f.restrict(**{v0: new_state(spec.doms[v0])}))
        ctx.rejects("a constant outside the domain", lambda: f.constant(new_state(spec.doms[v0])))
        from bcause.factors import MultinomialFactor as M
        other = {v0: [new_state(spec.doms[v0], k) for k in range(len(spec.doms[v0]))]}
        for op in ("multiply", "addition", "subtract"):
            ctx.rejects(f"{op} of factors that disagree on the states of {v0}", lambda: getattr(f, op)(M(other, [.5] * len(other[v0]), vtype=f.vtype)))
        ctx.check(snap_factor(f) == s0, "a refused operation changed the factor")
        ctx.count("factor_refusals", 5)
    # --- graphs
    cyc = nx.DiGraph(spec.edges)
    cyc.add_nodes_from(spec.vars)
    if spec.edges:
        a, b = spec.edges[int(rng.integers(len(spec.edges)))]
        reach = [x for x in spec.vars if nx.has_path(cyc, a, x) and x != a]
        cyc.add_edge(gen.pick_state(rng, reach), a)
    else:
        cyc.add_edge(spec.vars[0], spec.vars[0])
    for cls in (BayesianNetwork, StructuralCausalModel):
        ctx.rejects("a cyclic graph", lambda: cls(cyc))
        ctx.rejects("an undirected graph", lambda: cls(nx.Graph(spec.edges or [("A", "B")])))
        ctx.count("graph_refusals", 2)
    # --- factors of the model
    snap = snap_model(m)
    eng = VariableElimination(m)
    t = gen.pick_state(rng, spec.vars)
    pt = gen.bn_point(rng, spec)

    def usable(what):
        ctx.check(snap_model(m) == snap, f"refusing {what} changed the model")
        ctx.count("unchanged_after")

    def answers():
        ev = {v: pt[v] for v in gen.choose(rng, [x for x in spec.vars if x != t], 1)}
        ref, z = spec.posterior([t], ev)
        if ref is not None and z > 1e-9:
            with ctx.sut("a valid query after refusals"):
                p = eng.query(t, evidence=ev)
            expect(ctx, p, ref, f"P({t} | {ev}) after refusals", tol=1e-7)
            ctx.count("answers_after")

    for v in gen.choose(rng, spec.vars, 2):
        cands = bad_factors_for(rng, m, spec, v, scm)
        for k in rng.permutation(len(cands))[:6]:
            name, fn = cands[k]
            bad = fn()
            ctx.rejects(f"{name}, for {v}", lambda: m.set_factor(v, bad))
            usable(f"{name}, for {v}")
            ctx.count("model_refusals"), ctx.seen("model", name, scm is not None, vt, len(spec.vars))
            ctx.count("endogenous_not_degenerate", int(name.startswith("an equation that")))
        # a partially specified model: the states of a variable are checked against the factors of its children
        ch = [w for w in spec.vars if v in spec.parents[w]]
        if ch:
            cls = StructuralCausalModel if scm is not None else BayesianNetwork
            part = cls(m.graph)
            w = ch[0]
            with ctx.sut("setting the factor of a child first"):
                part.set_factor(w, m.factors[w])
            cand = [c for c in cands if "states of the variable" in c[0] or "extra state of the variable" in c[0]]
            for name, fn in cand:
                sp = snap_model(part)
                ctx.rejects(f"{name} {v}, whose child {w} has other states of it", lambda: part.set_factor(v, fn()))
                ctx.check(snap_model(part) == sp, "refusing changed a partially specified model")
                ctx.count("child_domain")
        with ctx.sut("setting the factor a variable already has"):
            m.set_factor(v, m.factors[v])
        ctx.check(snap_model(m) == snap, "setting the same factor changed the model")
        ctx.count("accepted_valid")
    ctx.rejects("a factor for an unknown variable", lambda: m.set_factor("Nope", m.factors[v0]))
    usable("a factor for an unknown variable")
    answers()
    # --- construction
    fs = dict(m.factors)
    cls = StructuralCausalModel if scm is not None else BayesianNetwork
    w = gen.pick_state(rng, spec.vars)
    leaf = not any(w in spec.parents[x] for x in spec.vars)
    cands = [c for c in bad_factors_for(rng, m, spec, w, scm) if not (leaf and c[0].endswith("of the variable"))]     # nothing else fixes the states of a leaf
    name, fn = cands[int(rng.integers(len(cands)))]
    bad = fn()
    ctx.rejects(f"building a model with {name}, for {w}", lambda: cls(m.graph, {**fs, w: bad}))
    if bad is not None and not isinstance(bad, list):
        rest = [f for x, f in fs.items() if x != w]
        if [w] == list(bad.left_vars):
            ctx.rejects(f"building a model from a list with {name}, for {w}", lambda: cls(m.graph, rest + [bad]))
    ctx.count("construction_refusals")
    usable("a construction")
    # --- queries
    nb = spec.parents[t] + [x for x in spec.vars if t in spec.parents[x]]
    bads = [("an unknown target", lambda: eng.query("Nope")), ("a repeated target", lambda: eng.query([t, t])), ("a target that is observed", lambda: eng.query(t, evidence={t: spec.doms[t][0]})),
            ("a target that is conditioned on", lambda: eng.query(t, conditioning=t)), ("an unknown evidence variable", lambda: eng.query(t, evidence={"Nope": 0})),
            ("an unknown conditioning variable", lambda: eng.query(t, conditioning="Nope")),
            ("running without compiling", lambda: VariableElimination(m).run())]
    if nb:
        x = gen.pick_state(rng, nb)
        bads += [("evidence outside the domain", lambda: eng.query(t, evidence={x: new_state(spec.doms[x])})),
                 ("a conditioning variable that is observed", lambda: eng.query(t, conditioning=x, evidence={x: spec.doms[x][0]}))]
    comp = None
    ev = {v: pt[v] for v in gen.choose(rng, [x for x in spec.vars if x != t], int(rng.integers(0, 2)))}
    ref, z = spec.posterior([t], ev)
    if ref is not None and z > 1e-9:
        with ctx.sut("compiling and running a valid query"):
            eng.compile(t, evidence=ev)
            expect(ctx, eng.run(), ref, f"P({t} | {ev}), compiled", tol=1e-7)
        comp = ref
    for k in rng.permutation(len(bads))[:5]:
        ctx.rejects(bads[k][0], bads[k][1])
        usable(bads[k][0])
        if bads[k][0] == "evidence outside the domain":       # well-formed names: the query is accepted and fails when it is run
            comp = None
        if comp is not None:
            with ctx.sut(f"running the compiled query again after refusing {bads[k][0]}"):
                again = eng.run()
            expect(ctx, again, comp, f"compiled P({t} | {ev}) run again after refusing {bads[k][0]}", tol=1e-7)
            ctx.count("compiled_kept")
        ctx.count("query_refusals"), ctx.seen("query", bads[k][0], scm is not None, vt)
        if rng.random() < .3:
            answers()
            comp = None
    answers()
    if scm is not None:
        ce = CausalVariableElimination(m)
        x, y = gen.pick_state(rng, list(scm.endo)), gen.pick_state(rng, list(scm.endo))
        bads = [("an unknown intervened variable", lambda: ce.causal_query(y, do={"Nope": 0})), ("an intervention outside the domain", lambda: ce.causal_query(y if y != x else list(scm.exo)[0], do={x: new_state(scm.endo[x])})),
                ("an unknown target", lambda: ce.causal_query("Nope", do={x: scm.endo[x][0]})), ("a target that is intervened on", lambda: ce.causal_query(x, do={x: scm.endo[x][0]})),
                ("an unknown counterfactual intervention", lambda: ce.counterfactual_query(y, do={"Nope": 0})), ("a counterfactual intervention outside the domain", lambda: ce.counterfactual_query(y, do={x: new_state(scm.endo[x])})),
                ("unknown counterfactual evidence", lambda: ce.counterfactual_query(y, do={x: scm.endo[x][0]}, evidence={"Nope": 1})),
                ("an intervention of the model outside the domain", lambda: m.intervention(**{x: new_state(scm.endo[x])})),
                ("the probability of necessity of an unknown cause", lambda: ce.prob_necessity("Nope", y))]
        if len(scm.endo[x]) > 2:
            bads.append(("the probability of necessity of a cause with more than two states", lambda: ce.prob_necessity(x, y)))
        for k in rng.permutation(len(bads))[:5]:
            ctx.rejects(bads[k][0], bads[k][1])
            usable(bads[k][0])
            ctx.count("causal_refusals"), ctx.seen("causal", bads[k][0], vt)
        if x != y:
            s = gen.pick_state(rng, scm.endo[x])
            with ctx.sut("a valid causal query after refusals"):
                p, c = ce.causal_query(y, do={x: s}), ce.counterfactual_query(y, do={x: s})
            expect(ctx, p, scm.query([(y, y, 0)], [{x: s}])[0], "causal query after refusals", tol=1e-7)
            expect(ctx, c, scm.query([(f"{y}_1", y, 0)], [{x: s}])[0], "counterfactual query after refusals", tol=1e-7)
            ctx.count("answers_after")
    if i < 2:
        ctx.sample({"vars": spec.vars, "refused": [c[0] for c in cands][:8]})
