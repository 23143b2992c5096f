"""C04 nothing the caller holds is changed behind its back: operations, queries, learning, sampling and I/O are pure; results do not alias."""
import copy
import itertools
import os

import numpy as np

from .. import gen
from ..core import Skip
from ..monitors import OpMonitor
from ..obs import freeze, snap_df, snap_factor, snap_graph, snap_model, table

ID = "C04"
CASES = {"quick": 640, "thorough": 30000}
NEED = {"actions": 2500, "factor_ops_watched": 4000, "cell_writes": 500, "caller_values_mutated": 400, "derived_then_written": 162, "model_written": 100,
        "learning": 40, "io": 60, "sampling": 60, "causal": 150, "transforms": 150, "data_actions": 60}
RULE = ("models, factors, data frames, evidence/intervention dictionaries and domains of random shape are snapshotted; random sequences of public actions "
        "(arithmetic, reductions, queries of every kind, reductions of the model, renaming, conversions, sampling, saving, learning) run on them; after "
        "every action every snapshot must be bit-identical. An online contract around the factor operations compares operands before and after every internal call. "
        "Separately cells are written through a store of an operand, a copy or a derived factor, caller-owned arrays are overwritten and factors of derived models are "
        "replaced: nothing else may change. Distinct = (kind, backend, action, sizes).")
ASSUMPTIONS = ["in-place methods (filling and in-place randomising factors, setting a factor, writing a cell) change exactly their receiver",
               "the caller does not itself modify the graph or the lists of states it handed over"]


def watch(ctx, held, what):
    for name, fn, s in held:
        ctx.check(fn() == s, f"{what} changed {name}")


def hold(held, name, fn):
    held.append((name, fn, fn()))


def cell_independence(ctx, rng, i):
    """writing one cell changes that cell only, and no copy / derived factor / caller array."""
    from bcause.factors import MultinomialFactor
    vt = gen.VTYPES[i % 4]
    n = int(rng.integers(1, 4))
    vs = gen.names(rng, n)
    doms = gen.domains(rng, vs, 2, 4)
    shape = [len(d) for d in doms.values()]
    arr = rng.random(shape)
    style = int(rng.integers(4))
    vals = arr.copy() if style == 0 else arr.tolist() if style == 1 else arr.ravel().tolist() if style == 2 else arr.ravel().copy()
    caller = {v: list(d) for v, d in doms.items()}
    f = MultinomialFactor(doms, vals, vtype=vt)
    ctx.note(vtype=vt, doms=doms, style=style)
    s0 = snap_factor(f)
    # the caller overwrites the values it passed in
    before = copy.deepcopy(vals)
    if style in (0, 3):
        vals[...] = -7.0
    elif style == 2:
        vals[:] = [-7.0] * len(vals)
    else:
        x = vals
        while isinstance(x[0], list):
            x = x[0]
        x[0] = -7.0
    ctx.check(snap_factor(f) == s0, f"{vt}: overwriting the values the factor was built from changed the factor", style=style)
    ctx.count("caller_values_mutated")
    vals = before
    # derived objects
    derived = {}
    with ctx.sut("deriving factors"):
        derived["rename"] = f.rename_vars({vs[0]: "Renamed"})
        derived["marginalize nothing"] = f.marginalize()
        derived["times one"] = f * 1
        derived["plus zero"] = f + 0
        derived["restrict"] = f.restrict(**{vs[0]: gen.pick_state(rng, doms[vs[0]])})
        if n > 1:
            derived["sum"] = f ** vs[0]
        g2 = MultinomialFactor(f.domain, f.store.data, vtype=vt)
        derived["rebuilt from its data"] = g2
        derived["store copy"] = f.store.copy()
    kind = gen.pick_state(rng, list(derived))
    asg = {v: gen.pick_state(rng, d) for v, d in doms.items()}
    new = float(rng.random() + 2)
    if rng.random() < .5:
        # write into the original; every derived object stays, except those that are the very same object (documented no-ops)
        snaps = {k: freeze(d.values_list) for k, d in derived.items() if d is not f}
        with ctx.sut("writing a cell"):
            f.store.set_value(new, asg)
        for k in snaps:
            ctx.check(freeze(derived[k].values_list) == snaps[k], f"{vt}: writing a cell of a factor changed a derived one ({k})", at=asg)
        tgt, told, talpha = f, s0, asg
    else:
        d = derived[kind]
        if d is f:
            return
        st = getattr(d, "store", d)
        names = {("Renamed" if (kind == "rename" and v == vs[0]) else v): v for v in vs}
        a2 = {nn: asg[v] for nn, v in names.items() if nn in st.variables}
        if not a2:
            return
        with ctx.sut("writing a cell of a derived factor"):
            st.set_value(new, a2)
        ctx.check(snap_factor(f) == s0, f"{vt}: writing a cell of a derived factor ({kind}) changed the original", at=a2)
        ctx.count("derived_then_written")
        ctx.seen("derived", vt, kind, n)
        ctx.count("cell_writes")
        return
    want = arr.copy()
    want[tuple(doms[v].index(asg[v]) for v in vs)] = new
    got = table(f).aligned(doms)
    ctx.check(np.array_equal(got, want), f"{vt}: writing {asg} changed other cells or did not write", got=got.tolist(), want=want.tolist())
    ctx.check(freeze(vals) == freeze(before), f"{vt}: writing a cell changed the values of the caller")
    ctx.check({v: list(d) for v, d in doms.items()} == caller, "the domain of the caller changed")
    ctx.count("cell_writes")
    ctx.seen("cell", vt, style, tuple(shape))


def actions(ctx, rng, m, spec, scm, df, held_models):
    """(name, thunk, counter): public calls that must leave everything they are given as it was."""
    import networkx as nx
    from bcause.inference.probabilistic.elimination import VariableElimination
    from bcause.inference.probabilistic.datainference import LaplaceInference
    from bcause.inference.causal.elimination import CausalVariableElimination
    from bcause.inference.causal.multi import CausalMultiInference
    from bcause.models.transform.simplification import minimalize
    from bcause.models.transform.conversion import causal_to_bnet
    from bcause.learning.parameter.expectation_maximization import ExpectationMaximization
    from bcause.inference.ordering import Heuristic
    from bcause.util import datautils, domainutils, graphutils
    from bcause.util.datadeps import DataDepAnalysis
    from bcause.conversion.pgmpy import toPgmpyBNet
    pt = gen.bn_point(rng, spec)
    t = gen.choose(rng, spec.vars, int(rng.choice([1, 1, 2])))
    ev = {v: pt[v] for v in gen.choose(rng, [x for x in spec.vars if x not in t], int(rng.integers(0, 3)))}
    rest = [v for v in spec.vars if v not in t and v not in ev]
    cond = gen.choose(rng, rest, int(rng.integers(0, 2)))
    out = []
    args = {"evidence": ev, "target": t, "conditioning": cond}
    ve = VariableElimination(m)

    def q():
        return ve.query(t, evidence=ev, conditioning=cond) if rng.random() < .7 else VariableElimination(m, heuristic=Heuristic.MIN_SIZE).query(t, evidence=ev)
    out.append(("a probabilistic query", q, "queries"))
    out.append(("compiling and running a query", lambda: ve.compile(t, ev).run(), "queries"))
    out.append(("minimalising the model", lambda: minimalize(m, list(t), ev), "transforms"))
    ren = {spec.vars[0]: "Qq", spec.vars[-1]: "Rr"} if len(spec.vars) > 1 else {spec.vars[0]: "Qq"}
    args["renaming"] = ren
    out.append(("renaming variables", lambda: m.rename_vars(ren), "transforms"))
    out.append(("copying the model", lambda: m.copy(), "transforms"))
    out.append(("sampling", lambda: m.sample(int(rng.integers(1, 6)), as_pandas=bool(rng.random() < .5)), "sampling"))
    rows = [pt, gen.bn_point(rng, spec)]
    args["observations"] = rows
    out.append(("the probability of observations", lambda: (m.prob(rows), m.log_prob(rows)), "queries"))
    out.append(("saving to UAI", lambda: (m.save("held.uai"), os.remove("held.uai")), "io"))
    bn = m if scm is None else None
    if bn is not None:
        out.append(("converting to pgmpy", lambda: toPgmpyBNet(bn), "transforms"))
        out.append(("taking a submodel", lambda: m.submodel([v for v in spec.vars if not spec.parents[v]]), "transforms"))
    else:
        cve = CausalVariableElimination(m)
        x = gen.pick_state(rng, list(scm.endo))
        y = gen.pick_state(rng, list(scm.endo))
        do = {x: gen.pick_state(rng, scm.endo[x])} if x != y else {}
        args["do"] = do
        w = gen.scm_point(rng, scm, [do])[0]
        cev = {v: w[v] for v in gen.choose(rng, [v for v in scm.endo if v != y and v not in do], 1)}
        args["causal evidence"] = cev
        fac = gen.scm_point(rng, scm, [{}])[0]
        fev = {v: fac[v] for v in gen.choose(rng, list(scm.endo), 1)}
        args["factual evidence"] = fev
        out.append(("an interventional query", lambda: cve.causal_query(y, do=do, evidence=cev), "causal"))
        out.append(("a counterfactual query", lambda: cve.counterfactual_query(y, do=do, evidence=fev), "causal"))
        if x != y and len(scm.endo[x]) == len(scm.endo[y]) == 2:
            out.append(("a probability of causation", lambda: cve.prob_necessity_sufficiency(x, y, true_false_cause=tuple(scm.endo[x]), true_false_effect=tuple(scm.endo[y])), "causal"))
        ms = [m, m.copy()]
        args["list of models"] = ms
        mi = CausalMultiInference(ms)
        out.append(("a multi-model query", lambda: mi.causal_query(y, do=do), "causal"))
        out.append(("an intervention", lambda: m.intervention(**do) if do else None, "transforms"))
        out.append(("casting to a Bayesian network", lambda: (m.to_bnet(), causal_to_bnet(m), m.to_multinomial()), "transforms"))
        out.append(("the q-decomposition", lambda: (m.qgraph, m.ccomponents, m.get_qfactorisation(), m.exo_graph), "transforms"))
        out.append(("the likelihood of data", lambda: m.log_likelihood(df), "data_actions"))
        tr = list(m.exogenous)
        args["trainable variables"] = tr
        out.append(("randomising factors (not in place)", lambda: m.randomize_factors(tr), "transforms"))
        out.append(("sampling endogenous variables", lambda: m.sampleEndogenous(3, as_pandas=bool(rng.random() < .5)), "sampling"))

        def em():
            l = ExpectationMaximization(m.randomize_factors(m.exogenous, allow_zero=False), trainable_vars=tr)
            l.run(df, max_iter=2)
        out.append(("expectation maximisation", em, "learning"))
        prior = m.randomize_factors(m.exogenous, allow_zero=False)
        held_models.append(prior)

        def em2():
            l = ExpectationMaximization(prior)
            l.run(df, max_iter=2)
        out.append(("expectation maximisation from a held prior", em2, "learning"))
        out.append(("the data dependencies", lambda: DataDepAnalysis(m.graph, df).get_minimal_obs_counts(tr[0]), "data_actions"))
    lap_dom = {v: list(d) for v, d in spec.doms.items() if v in df.columns}
    args["domains"] = lap_dom
    cols = list(lap_dom)
    tt = cols[0]
    lev = {cols[-1]: df.iloc[0][cols[-1]]} if len(cols) > 1 else {}
    args["data evidence"] = lev
    out.append(("inference from data", lambda: LaplaceInference(df, lap_dom).query(tt, evidence=lev), "data_actions"))
    out.append(("counting data", lambda: datautils.to_counts(lap_dom, df, normalize=True), "data_actions"))
    out.append(("filtering data", lambda: datautils.filter_data(df, lev), "data_actions"))
    g = m.graph
    out.append(("graph utilities", lambda: (graphutils.barren_nodes(g, set(t)), graphutils.dsep_nodes(g, t, list(ev)), graphutils.remove_nodes(g, t), graphutils.remove_outgoing_edges(g, t),
                                            graphutils.remove_ingoing_edges(g, t), graphutils.markov_blanket(g, t[0]), graphutils.disconnected_nodes(g, t), m.markov_blanket(t[0])), "transforms"))
    out.append(("domain utilities", lambda: (domainutils.subdomain(lap_dom, *cols), domainutils.restrict_domain(lap_dom, {tt: lap_dom[tt][0]}), domainutils.assingment_space(lap_dom),
                                             domainutils.to_numeric_domains(lap_dom), domainutils.index_list(lap_dom, {tt: lap_dom[tt][0]})), "transforms"))
    vs = list(spec.vars)
    f1, f2 = m.factors[vs[0]], m.factors[vs[-1]]
    if hasattr(f1, "restrict") and type(f1).__name__ == "MultinomialFactor" and type(f2).__name__ == "MultinomialFactor":
        args["constant state"] = {vs[0]: spec.doms[vs[0]][0]}
        out.append(("factor algebra", lambda: (f1 * f2, f1 + f2, f1 - f2, f1 * 2, 2 - f1, f1 ** f1.variables[0], f1.R(**{vs[0]: pt[vs[0]]}), f1.values_array(),
                                               f1.values_dict, f1.constant(spec.doms[vs[0]][0]), f1.rename_vars({vs[0]: "Qq"}), repr(f1)), "transforms"))
    return out, args


def case(ctx, rng, i):
    import pandas as pd
    if i % 4 != 3:
        for _ in range(2):
            cell_independence(ctx, rng, int(rng.integers(1000)))
    vt = gen.VTYPES[rng.integers(4)] if rng.random() < .5 else None
    scm = None
    if i % 2:
        scm = gen.random_scm(rng, (1, 3), (1, 2), 25, exo_hi=4, p_kinds=["pos", "dir"], allow_exo_free=False)
        spec = scm.bn()
        m = gen.scm_obj(rng, scm, vt)
        df = pd.DataFrame(gen.endo_rows(rng, scm, int(rng.integers(2, 12))))
    else:
        spec = gen.random_bn(rng, 2, 5, 200, cpt_kinds=["pos", "dir", "grid"])
        m = gen.bn_obj(rng, spec, vt)
        df = pd.DataFrame([gen.bn_point(rng, spec) for _ in range(int(rng.integers(2, 12)))])
    df.index = [int(x) for x in rng.permutation(len(df)) + 5]
    ctx.note(doms=spec.doms, parents=spec.parents, vtype=vt, scm=scm is not None)
    extra = []
    acts, args = actions(ctx, rng, m, spec, scm, df, extra)
    held = []
    hold(held, "the model", lambda: snap_model(m))
    hold(held, "the graph of the model", lambda: snap_graph(m.graph))
    hold(held, "the data", lambda: snap_df(df))
    for k, x in enumerate(extra):
        hold(held, "the prior model", lambda x=x: snap_model(x))
    for k, a in args.items():
        hold(held, f"the {k} of the caller", lambda a=a, k=k: freeze(a) if k != "list of models" else tuple(map(id, a)))
    mon = OpMonitor(arithmetic=False, reductions=False, purity=True)
    with mon.installed():
        for _ in range(7):
            name, fn, counter = acts[rng.integers(len(acts))]
            with ctx.sut(name):
                fn()
            watch(ctx, held, name)
            ctx.count("actions"), ctx.count(counter)
            ctx.seen("action", name, vt, len(spec.vars), len(df))
    ctx.count("factor_ops_watched", mon.checked)
    ctx.check(not mon.errors, f"an operand changed during an operation: {mon.errors[:1]}")
    # replacing factors of derived models leaves the original alone
    with ctx.sut("deriving models"):
        d = {"copy": lambda: m.copy(), "rename": lambda: m.rename_vars({})}
        if scm is not None:
            x = list(scm.endo)[0]
            d["intervention"] = lambda: m.intervention(**{x: scm.endo[x][0]})
            d["randomised"] = lambda: m.randomize_factors(m.exogenous)
            d["bnet"] = lambda: m.to_bnet()
        k = gen.pick_state(rng, list(d))
        dm = d[k]()
    v = gen.pick_state(rng, [u for u in spec.vars if not spec.parents[u]] if scm is None else list(scm.exo))
    from bcause.factors import MultinomialFactor
    nf = MultinomialFactor({v: list(spec.doms[v])}, [1.0 / len(spec.doms[v])] * len(spec.doms[v]))
    with ctx.sut("replacing a factor of a derived model"):
        dm.set_factor(v, nf)
    watch(ctx, held, f"replacing a factor of a derived model ({k})")
    s = snap_model(dm)
    o2 = m.factors[v]
    with ctx.sut("replacing a factor of the model"):
        m.set_factor(v, MultinomialFactor({v: list(spec.doms[v])}, [1.0] + [0.0] * (len(spec.doms[v]) - 1)))
    ctx.check(snap_model(dm) == s, f"replacing a factor of the model changed a derived one ({k})")
    m.set_factor(v, o2)
    watch(ctx, held, "restoring the factor")
    ctx.count("model_written"), ctx.seen("model", k, vt)
    if i < 3:
        ctx.sample({"vars": list(spec.vars), "held": [h[0] for h in held], "actions": [a[0] for a in acts][:8]})
