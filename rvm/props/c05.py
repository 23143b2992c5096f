"""C05 the storage backend never changes an answer."""
import numpy as np

from .. import gen
from ..obs import diff_tables, table
from ..ref import T

ID = "C05"
CASES = {"quick": 270, "thorough": 16000}
NEED = {"pipelines": 100, "answers_compared": 4000, "vtype_kept": 2000, "via_vtype": 51, "via_default": 50, "mixed": 9, "mixed_refused": 60, "causal": 560, "learning": 80, "io": 150,
        "restored_default": 50, "sampling": 100, "made": 2000, "gradient": 31, "likelihoods": 40, "aggregated": 20}
RULE = ("the same random model is built once per storage backend (explicitly, through the library-wide default, or with a different backend per factor) and goes through the "
        "same pipeline: queries, interventions, counterfactuals, probabilities of causation, q-factors, likelihoods, EM steps, reading/writing, sampling; all answers must agree "
        "with each other (by variable and state) and each answer of a model whose factors share one backend must be stored in that backend. "
        "Distinct = (how the backend was chosen, kind of model, sizes, step of the pipeline).")
ASSUMPTIONS = ["operations a backend declares as not implemented are not used", "tolerance 1e-9 (1e-7 after learning)"]
STORES = {"numpy": "NumpyStore", "numpy1d": "Numpy1DStore", "list": "ListStore", "treedict": "TreeDictStore"}


def build_bn(rng_seed, spec, vt, vts=None):
    rng = np.random.default_rng(rng_seed)
    m = gen.bn_obj(rng, spec, vt)
    if vts:
        for v in spec.vars:
            m.set_factor(v, gen.factor_obj(np.random.default_rng(rng_seed), spec.doms, spec.parents[v] + [v], spec.cpt[v], left=[v], vtype=vts[v]))
    return m


def build_scm(rng_seed, scm, vt, vts=None, det=True, cast=True):
    rng = np.random.default_rng(rng_seed)
    m = gen.scm_obj(rng, scm, vt, deterministic=det, cast=cast)
    if vts:
        for v in scm.endo:
            m.set_factor(v, gen.eq_factor_obj(np.random.default_rng(rng_seed), scm, v, vts[v]))
        for u in scm.exo:
            m.set_factor(u, gen.factor_obj(np.random.default_rng(rng_seed), scm.doms, [u], scm.pu[u], left=[u], vtype=vts[u]))
    return m


def factor_of(x):
    return table(x)


def pipeline(ctx, seed, m, spec, scm, df, tag):
    """ordered list of (step, value) where value is a T, a number array or a data frame snapshot; plus the produced factors."""
    from bcause.inference.probabilistic.elimination import VariableElimination
    from bcause.inference.causal.elimination import CausalVariableElimination
    from bcause.learning.parameter.expectation_maximization import ExpectationMaximization
    from bcause.learning.parameter.gradient import GradientLikelihood
    from bcause.learning.aggregator.aggregator import SimpleModelAggregatorEM
    from bcause.models import BayesianNetwork
    import os
    rng = np.random.default_rng(seed)
    out, facs = [], []

    def add(step, f):
        facs.append((step, f))
        out.append((step, factor_of(f)))

    for k in range(3):
        pt = gen.bn_point(rng, spec)
        t = gen.choose(rng, spec.vars, int(rng.choice([1, 2])))
        ev = {v: pt[v] for v in gen.choose(rng, [x for x in spec.vars if x not in t], int(rng.integers(0, 3)))}
        add("query", VariableElimination(m).query(list(t), evidence=ev))
    rest = gen.choose(rng, spec.vars, 2)
    if len(rest) == 2 and all((spec.joint().reduce([v for v in spec.vars if v != rest[1]], "sum").a > 1e-9).ravel()):
        add("conditional query", VariableElimination(m).query(rest[0], conditioning=rest[1]))
    rows = [gen.bn_point(rng, spec) for _ in range(3)]
    out.append(("probabilities", np.array([m.prob(rows), m.log_prob(rows)], dtype=float)))
    fs = [m.factors[v] for v in spec.vars]
    if all(type(f).__name__ == "MultinomialFactor" for f in fs):
        a, b = fs[0], fs[-1]
        r = {spec.vars[0]: pt[spec.vars[0]]}
        for st, fn in [("product", lambda: a * b), ("sum", lambda: a + b), ("difference", lambda: a - b), ("ratio", lambda: (a * b) / a), ("scaled", lambda: a * 3), ("marginal", lambda: (a * b) ** spec.vars[0]),
                       ("restricted", lambda: (a * b).R(**r)), ("renamed", lambda: a.rename_vars({spec.vars[0]: "Qq"})), ("constant", lambda: a.constant(pt[spec.vars[0]]))]:
            add(st, fn())
    s = m.sample(25)
    ctx.check(set(s.columns) == set(spec.vars) and len(s) == 25, f"{tag}: sample has columns {list(s.columns)} and {len(s)} rows")
    for v in spec.vars:
        ctx.check(all(x in spec.doms[v] for x in s[v]), f"{tag}: sampled states of {v}")
    ctx.check(all(spec.joint().at({v: r[v] for v in spec.vars}) > 0 for r in s.to_dict("records")), f"{tag}: sampled an impossible configuration")
    ctx.count("sampling")
    m.save(os.path.join(ctx.scratch, "b.uai"))
    out.append(("file", tuple(open(os.path.join(ctx.scratch, "b.uai")).read().split())))
    out.append(("renamed model", tuple(factor_of(m.rename_vars({spec.vars[0]: "Qq"}).factors[v if v != spec.vars[0] else "Qq"]) for v in spec.vars) if scm is None else ()))
    ctx.count("io")
    if scm is not None:
        e = CausalVariableElimination(m)
        for _ in range(2):
            x, y = gen.pick_state(rng, list(scm.endo)), gen.pick_state(rng, list(scm.endo))
            do = {x: gen.pick_state(rng, scm.endo[x])} if x != y else {}
            w = gen.scm_point(rng, scm, [do, {}])
            ev = {v: w[0][v] for v in gen.choose(rng, [v for v in scm.endo if v != y and v not in do], 1)}
            add("interventional query", e.causal_query(y, do=do, evidence=ev))
            cev = {v: w[1][v] for v in gen.choose(rng, list(scm.endo), 1)}
            add("counterfactual query", e.counterfactual_query(y, do=do, evidence=cev))
            ctx.count("causal", 2)
            if x != y and len(scm.endo[x]) == len(scm.endo[y]) == 2:
                pns = e.prob_necessity_sufficiency(x, y, true_false_cause=tuple(scm.endo[x]), true_false_effect=tuple(scm.endo[y]))
                out.append(("probability of causation", np.array([float(pns)])))
            if do:
                im = m.intervention(**do)
                for v in im.variables:
                    out.append((f"intervened {v}", factor_of(im.factors[v])))
                    facs.append((f"intervened {v}", im.factors[v]))
        prior = m.copy()
        if rng.random() < .5:
            em = ExpectationMaximization(prior, trainable_vars=list(scm.exo))
            em.run(df, max_iter=2)
            for u in scm.exo:
                out.append((f"learnt {u}", factor_of(em.model.factors[u])))
                facs.append((f"learnt {u}", em.model.factors[u]))
            ctx.count("learning")
        if rng.random() < .25:
            out.append(("likelihoods", np.array([float(m.log_likelihood(df)), float(m.max_log_likelihood(df))])))
            for v, q in m.get_qfactorisation().items():
                add(f"factor of {v} in the decomposition", q)
            ctx.count("likelihoods")
        if all(sum(p in scm.exo for p in spec.parents[v]) == 1 for v in scm.endo) and rng.random() < .25:
            g = GradientLikelihood(prior, trainable_vars=list(scm.exo))
            g.run(df)
            for u in scm.exo:
                add(f"learnt {u} by gradient", g.model.factors[u])
            y, x = gen.pick_state(rng, list(scm.endo)), gen.pick_state(rng, list(scm.endo))
            add("learnt query", CausalVariableElimination(g.model).causal_query(y, do={x: gen.pick_state(rng, scm.endo[x])} if x != y else {}))
            ctx.count("gradient")
        if rng.random() < .15:
            np.random.seed(seed)
            agg = SimpleModelAggregatorEM(m, df, max_iter=2)
            agg.run(2)
            for k, a in enumerate(agg.models):
                for v in a.variables:
                    add(f"learnt {v} in model {k}", a.factors[v])
            ctx.count("aggregated")
    return out, facs


def makers(ctx, rng, vt, explicit):
    """(what, function giving the factors it makes): everything that makes a factor without or with the name of a backend."""
    import os
    import networkx as nx
    import pandas as pd
    import bcause as bc
    from bcause.factors import DeterministicFactor, MultinomialFactor
    from bcause.factors.deterministic import canonical_deterministic
    from bcause.factors.imprecise import IntervalProbFactor
    from bcause.factors.mulitnomial import canonical_multinomial, random_deterministic, random_multinomial, uniform_multinomial
    from bcause.models import BayesianNetwork
    from bcause.models.cmodel import StructuralCausalModel
    from bcause.readwrite import bnread
    from bcause.util.datautils import to_counts
    a, b, u = gen.names(rng, 3)
    dom = {a: gen.states(rng, a, 2), b: gen.states(rng, b, int(rng.integers(2, 4)))}
    kw = {"vtype": vt} if explicit else {}
    n = len(dom[b])
    odd = int(rng.integers(2))
    fdom = {u: gen.states(rng, u, 3), a: dom[a]}
    cdom = {u: [f"u{k}" for k in range(n * n)], **dom}
    f1, f2 = (MultinomialFactor(dom, rng.random((2, n)), left_vars=[b], **kw) for _ in range(2))
    eq = MultinomialFactor(dom, np.eye(n)[rng.integers(0, n, 2)], left_vars=[b], **kw)
    det = DeterministicFactor(dom, [gen.pick_state(rng, dom[b]) for _ in range(2)], left_vars=[b], **kw)
    out = [("random_multinomial", lambda: [random_multinomial(dom, [a] * odd, **kw)]), ("uniform_multinomial", lambda: [uniform_multinomial(dom, [a] * odd, **kw)]),
           ("random_deterministic", lambda: [random_deterministic(dom, [a], **kw)]), ("DeterministicFactor", lambda: [det]), ("MultinomialFactor", lambda: [f1]),
           ("IntervalProbFactor", lambda: [IntervalProbFactor(dom, np.zeros((2, n)), np.ones((2, n)), left_vars=[b], **kw)]),
           ("canonical_multinomial", lambda: [canonical_multinomial(cdom, u, [a], **kw)]), ("canonical_deterministic", lambda: [canonical_deterministic(cdom, u, [a], **kw)]),
           ("DeterministicFactor.to_multinomial", lambda: [det.to_multinomial(), det.to_multinomial(as_int=True)]),
           ("to_deterministic", lambda: [eq.to_deterministic(), eq.to_deterministic().to_multinomial()]),
           ("DeterministicFactor.constant", lambda: [DeterministicFactor({b: dom[b]}, [dom[b][0]], left_vars=[b], **kw).constant(dom[b][1])]),
           ("MultinomialFactor.constant", lambda: [MultinomialFactor({b: dom[b]}, [1 / n] * n, **kw).constant(dom[b][1])]),
           ("from_precise", lambda: [IntervalProbFactor.from_precise([f1, f2])]), ("interval restriction", lambda: [IntervalProbFactor.from_precise([f1, f2]).restrict(**{a: dom[a][0]})])]
    m = BayesianNetwork(nx.DiGraph([(a, b)]), [MultinomialFactor({a: dom[a]}, [.25, .75], **kw), MultinomialFactor(dom, np.full((2, n), 1 / n), left_vars=[b], **kw)])
    out += [("copy", lambda: list(m.copy().factors.values())), ("rename_vars", lambda: list(m.rename_vars({a: "Qq"}).factors.values()))]
    p = os.path.join(ctx.scratch, "d.uai")
    sm = BayesianNetwork(nx.DiGraph([("X", "Y")]), [MultinomialFactor({"X": ["x0", "x1"]}, [.25, .75], vtype="numpy"), MultinomialFactor({"X": ["x0", "x1"], "Y": ["y0", "y1"]}, [[.5, .5], [.125, .875]], left_vars=["Y"], vtype="numpy")])
    for ext, rd in (("bif", bnread.from_bif), ("xmlbif", bnread.from_xmlbif)):
        def read(ext=ext, rd=rd):
            q = os.path.join(ctx.scratch, "d." + ext)
            sm.save(q)
            return list(rd(q, **kw).factors.values())
        out.append((f"reading {ext}", read))
    if not explicit:
        g, d3 = nx.DiGraph([(u, a)]), fdom
        rows = pd.DataFrame([{a: gen.pick_state(rng, dom[a]), b: gen.pick_state(rng, dom[b])} for _ in range(5)])
        out += [("filling a structural model", lambda: (lambda s: (s.fill_random_factors(d3), list(s.factors.values()))[1])(StructuralCausalModel(g))),
                ("filling equations and marginals", lambda: (lambda s: (s.fill_random_equations(d3), s.fill_random_marginals(d3), list(s.factors.values()))[2])(StructuralCausalModel(g))),
                ("randomising a network", lambda: (lambda s: (s.randomize_factors(d3), list(s.factors.values()))[1])(BayesianNetwork(g))),
                ("from_data_frame", lambda: [DeterministicFactor.from_data_frame(pd.DataFrame({a: dom[a], b: [dom[b][0]] * 2}), dom)]),
                ("counts", lambda: [to_counts(dom, rows), to_counts(dom, rows, normalize=True), to_counts(dom)])]
    return out


def made(ctx, rng, vt, explicit):
    how = "named" if explicit else "library-wide default"
    ms = makers(ctx, rng, vt, explicit)
    reading = rng.random() < .04                          # slow
    for k in rng.permutation(len(ms))[:12]:
        what, fn = ms[k]
        if what.startswith("reading") and not reading:
            continue
        with ctx.sut(f"{what} with backend {vt} ({how})"):
            fs = fn()
        for f in fs:
            ctx.check(type(f.store).__name__ == STORES[vt], f"{what}: stored in a {type(f.store).__name__} with backend {vt} ({how})")
            ctx.check(f.vtype == vt, f"{what}: reports {f.vtype} with backend {vt} ({how})")
            if type(f).__name__ == "MultinomialFactor":
                g = f * f
                ctx.check(type(g.store).__name__ == STORES[vt], f"{what}: its square is stored in a {type(g.store).__name__} with backend {vt} ({how})")
        ctx.count("made"), ctx.seen("made", what, vt, explicit)


def same(x, y, tol):
    if isinstance(x, T):
        return diff_tables(x, y, tol, tol)
    if isinstance(x, np.ndarray):
        return None if x.shape == y.shape and np.allclose(x, y, rtol=tol, atol=tol) else f"{x.tolist()} / {y.tolist()}"
    if isinstance(x, tuple) and x and isinstance(x[0], str):
        if len(x) != len(y):
            return f"{len(x)} / {len(y)} tokens"
        for a, b in zip(x, y):
            if a != b and abs(float(a) - float(b)) > tol:
                return f"{a} / {b}"
        return None
    if isinstance(x, tuple):
        return next((d for d in (same(a, b, tol) for a, b in zip(x, y)) if d), None)
    return None if x == y else f"{x} / {y}"


def case(ctx, rng, i):
    import pandas as pd
    from bcause.factors.values.store import DataStore
    scm = None
    if i % 2:
        scm = gen.random_scm(rng, (1, 3), (1, 3), 30, exo_hi=4, exo_per_endo=1 if i % 4 == 1 else None, p_kinds=["pos", "dir", "grid"], allow_exo_free=False, allow_childless=False)
        spec = scm.bn()
        df = pd.DataFrame(gen.endo_rows(rng, scm, int(rng.integers(2, 15))))
    else:
        spec = gen.random_bn(rng, 1, 5, 300, cpt_kinds=["pos", "dir", "grid", "sparse"])
        df = None
    ctx.note(doms=spec.doms, parents=spec.parents, scm=scm is not None)
    how = ["vtype", "default", "mixed"][i % 3]
    bs, ps = int(rng.integers(2 ** 31)), int(rng.integers(2 ** 31))
    old = DataStore.DEFAULT_STORE
    build = (lambda vt, vts=None: build_bn(bs, spec, vt, vts)) if scm is None else (lambda vt, vts=None: build_scm(bs, scm, vt, vts))
    results = {}
    ctx.check(old == "numpy", f"default backend is {old}")
    try:
        for vt in gen.VTYPES:
            if how == "default":
                DataStore.set_default(vt)
            with ctx.sut(f"pipeline with backend {vt} ({how})"):
                m = build(vt if how == "vtype" else None)
                if how != "mixed":
                    made(ctx, rng, vt, how == "vtype")
                res, facs = pipeline(ctx, ps, m, spec, scm, df, f"{vt} ({how})")
            results[vt] = res
            if how != "mixed" or vt == "numpy":
                want = vt if how != "mixed" else "numpy"
                for st, f in facs:
                    got = type(f.store).__name__
                    ctx.check(got == STORES[want], f"{st} with backend {want} ({how}) is stored in a {got}")
                    ctx.count("vtype_kept")
            if how == "mixed":
                break
        if how == "mixed":
            for k in range(2):
                pick = {v: gen.pick_state(rng, gen.VTYPES) for v in spec.vars}
                try:
                    m = build(None, pick)
                    res, facs = pipeline(ctx, ps, m, spec, scm, df, f"mixed {pick}")
                except ValueError:                       # combining different backends may be refused, but not answered wrongly
                    ctx.count("mixed_refused")
                    continue
                results[f"mixed{k}"] = res
                ctx.count("mixed")
    finally:
        DataStore.set_default(old)
    ctx.count("pipelines")
    ctx.count({"vtype": "via_vtype", "default": "via_default", "mixed": "mixed_cases"}[how])
    if how == "default":
        from bcause.factors import MultinomialFactor
        f = MultinomialFactor({"A": [0, 1]}, [.2, .8])
        ctx.check(type(f.store).__name__ == "NumpyStore", "setting the default backend back has no effect")
        ctx.count("restored_default")
    base = results["numpy"]
    for k, r in results.items():
        if k == "numpy":
            continue
        ctx.check([s for s, _ in r] == [s for s, _ in base], f"{k}: other steps")
        for (st, x), (_, y) in zip(r, base):
            d = same(x, y, 1e-6 if st.startswith("learnt") else 1e-9)
            ctx.check(d is None, f"{st}: backend {k} / numpy ({how}): {d}")
            ctx.count("answers_compared"), ctx.seen(how, k, st, len(spec.vars), scm is not None)
    if i < 3:
        ctx.sample({"how": how, "vars": spec.vars, "steps": [s for s, _ in base]})
