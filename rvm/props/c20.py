"""C20 UAI files: writing and reading back preserves the model; what is written and read is the UAI format."""
import os

import numpy as np

from .. import gen
from ..core import Violation
from ..emref import refbn_of
from ..obs import expect, snap_model, table
from ..ref import RefBN, T

ID = "C20"
CASES = {"quick": 900, "thorough": 20000}
NEED = {"bn_written": 150, "scm_written": 100, "round_trips": 250, "bn_foreign": 100, "scm_foreign": 100, "var_order": 60, "isolated": 30, "reader_options": 60, "rejected": 100,
        "second_round_trip": 150, "extreme_numbers": 20, "answers_after": 40}
RULE = ("random Bayesian networks and structural causal models (every backend, isolated nodes, roots, up to three parents, tiny and huge numbers, random variable orders) are saved; the file is parsed by an "
        "independent parser and compared with the model, read back by the library and compared again (k-th variable of the file against the k-th variable written, states by position); "
        "files produced by an independent writer (other white space, scientific notation, any order of parents) are read and compared. Distinct = (kind, backend, sizes, options, style of the file).")
ASSUMPTIONS = ["probabilities are compared with relative precision 1e-12", "structural causal models whose endogenous variables all have parents (the format identifies exogenous variables as roots)"]


def parse(path):
    """independent reader: (label, cards, scopes, tables)"""
    toks = open(path).read().split()
    label, toks = toks[0], toks[1:]
    pos = 0

    def nxt():
        nonlocal pos
        pos += 1
        return toks[pos - 1]
    n = int(nxt())
    cards = [int(nxt()) for _ in range(n)]
    k = int(nxt())
    scopes = []
    for _ in range(k):
        s = int(nxt())
        scopes.append([int(nxt()) for _ in range(s)])
    tabs = []
    for _ in range(k):
        m = int(nxt())
        tabs.append([float(nxt()) for _ in range(m)])
    if pos != len(toks):
        raise Violation(f"{len(toks) - pos} numbers too many in the file")
    return label, cards, scopes, tabs


def judge_file(ctx, path, order, spec, scm, what):
    try:
        label, cards, scopes, tabs = parse(path)
    except (IndexError, ValueError) as e:
        raise Violation(f"{what}: the file is not well formed: {e}")
    ctx.check(label == ("CAUSAL" if scm else "BAYES"), f"{what}: label {label}")
    ctx.check(cards == [len(spec.doms[v]) for v in order], f"{what}: cardinalities {cards} of {order}")
    ctx.check(len(scopes) == len(order), f"{what}: {len(scopes)} factors")
    for k, v in enumerate(order):
        sc = scopes[k]
        ctx.check(sc[-1] == k and {order[j] for j in sc[:-1]} == set(spec.parents[v]) and len(sc) == len(spec.parents[v]) + 1, f"{what}: scope {sc} of {v}")
        pa = [order[j] for j in sc[:-1]]
        if scm is not None and v in scm.endo:
            shp = [len(spec.doms[p]) for p in pa]
            ctx.check(len(tabs[k]) == int(np.prod(shp)), f"{what}: {len(tabs[k])} values in the equation of {v}")
            got = np.array(tabs[k]).reshape(shp)
            want = np.transpose(scm.eq[v], [scm.parents[v].index(p) for p in pa])
            ctx.check(np.array_equal(got, want), f"{what}: equation of {v} is {got.tolist()} instead of {want.tolist()}", parents=pa)
        else:
            ax = pa + [v]
            want = np.array(T({x: spec.doms[x] for x in spec.parents[v] + [v]}, spec.cpt[v]).aligned({x: spec.doms[x] for x in ax}))
            ctx.check(len(tabs[k]) == want.size, f"{what}: {len(tabs[k])} values for {v}")
            got = np.array(tabs[k]).reshape(want.shape)
            ctx.check(np.allclose(got, want, rtol=1e-12, atol=0), f"{what}: table of {v} is {got.ravel().tolist()[:8]} instead of {want.ravel().tolist()[:8]}", parents=pa)


def renamed(spec, order, prefix="V", first=0, first_state=0):
    m = {v: f"{prefix}{k + first}" for k, v in enumerate(order)}
    doms = {m[v]: list(range(first_state, first_state + len(spec.doms[v]))) for v in order}
    vs = [v for v in spec.vars]
    return RefBN({m[v]: doms[m[v]] for v in vs}, {m[v]: [m[p] for p in spec.parents[v]] for v in vs}, {m[v]: spec.cpt[v] for v in vs}), m


def judge_model(ctx, got, want, what, scm=None, mapping=None):
    ctx.check(set(got.variables) == set(want.vars), f"{what}: variables {sorted(got.variables)}")
    ctx.check(set(got.graph.edges) == set(want.edges), f"{what}: arcs {sorted(got.graph.edges)} instead of {sorted(want.edges)}")
    for v in want.vars:
        f = got.factors[v]
        ctx.check(list(got.domains[v]) == want.doms[v], f"{what}: states of {v}: {got.domains[v]}")
        ctx.check(set(f.left_vars) == {v} and set(f.right_vars) == set(want.parents[v]), f"{what}: factor {f.name}")
        f = f.to_multinomial() if hasattr(f, "to_multinomial") else f
        ax = want.parents[v] + [v]
        expect(ctx, f, T({x: want.doms[x] for x in ax}, want.cpt[v]), f"{what}: {f.name}", tol=0, rtol=1e-12)
    if scm is not None:
        ctx.check(set(got.endogenous) == {mapping[v] for v in scm.endo} and set(got.exogenous) == {mapping[u] for u in scm.exo}, f"{what}: endogenous {got.endogenous}")


def write_foreign(rng, path, spec, order, scm, shuffle_parents=True):
    """independent writer in a random style."""
    fmt = [repr, lambda x: f"{x:.17e}", lambda x: f"{x:.17E}", lambda x: ("%r" % x).replace("0.", ".", 1) if 0 < x < 1 and repr(x).startswith("0.") else repr(x)][rng.integers(4)]
    sep = [" ", "  ", "\t", "\n"][rng.integers(4)]
    nl = ["\n", "\n\n", "\r\n"][rng.integers(3)]
    head = ("CAUSAL" if scm else "BAYES") + ["\n", " \n"][rng.integers(2)]
    out = [f"{len(order)}", sep.join(str(len(spec.doms[v])) for v in order), f"{len(order)}"]
    pas = {}
    for v in order:
        pa = list(spec.parents[v])
        if shuffle_parents:
            pa = [pa[j] for j in rng.permutation(len(pa))]
        pas[v] = pa
        out.append(" ".join([str(len(pa) + 1)] + [str(order.index(x)) for x in pa + [v]]))
    for v in order:
        pa = pas[v]
        if scm is not None and v in scm.endo:
            a = np.transpose(scm.eq[v], [scm.parents[v].index(p) for p in pa])
            vals = [str(int(x)) for x in a.ravel()]
        else:
            a = np.array(T({x: spec.doms[x] for x in spec.parents[v] + [v]}, spec.cpt[v]).aligned({x: spec.doms[x] for x in pa + [v]}))
            vals = [fmt(float(x)) for x in a.ravel()]
        out.append("" if rng.random() < .3 else "")
        out.append(f"{len(vals)}{sep}{sep.join(vals)}")
    with open(path, "w", newline="") as f:
        f.write(head + nl.join(out) + nl)


def case(ctx, rng, i):
    from bcause.models import BayesianNetwork
    from bcause.models.cmodel import StructuralCausalModel
    from bcause.readwrite import bnread, scmread
    from bcause.inference.probabilistic.elimination import VariableElimination
    vt = gen.VTYPES[rng.integers(4)] if rng.random() < .4 else None
    scm = None
    if i % 2:
        scm = gen.random_scm(rng, (1, 4), (1, 4), 60, lo=1, allow_childless=bool(rng.random() < .6))
        spec = scm.bn()
        cast = bool(rng.random() < .6)
        m = gen.scm_obj(rng, scm, vt, cast=cast)
        cls, rd = StructuralCausalModel, scmread
    else:
        spec = gen.random_bn(rng, 1, 6, 2000, lo=1)
        if rng.random() < .15:                             # extreme magnitudes
            v = spec.vars[0]
            k = len(spec.doms[v])
            p = np.array([10.0 ** -float(e) for e in rng.integers(1, 300, k)])
            p[0] = 1.0 - p[1:].sum() if k > 1 else 1.0
            spec.cpt[v] = np.broadcast_to(p, spec.cpt[v].shape).copy()
            ctx.count("extreme_numbers")
        m = gen.bn_obj(rng, spec, vt)
        cls, rd = BayesianNetwork, bnread
    ctx.note(doms=spec.doms, parents=spec.parents, cpt={v: a.tolist() for v, a in spec.cpt.items()}, scm=scm is not None, vtype=vt)
    ctx.count("isolated", int(any(not spec.parents[v] and not any(v in spec.parents[w] for w in spec.vars) for v in spec.vars)))
    path = os.path.join(ctx.scratch, f"m{i}.uai")
    snap = snap_model(m)
    kw = {}
    default = list(m.endogenous) + list(m.exogenous) if scm is not None else list(m.variables)
    order = default
    if rng.random() < .4:
        order = gen.choose(rng, spec.vars, len(spec.vars))
        kw["var_order"] = list(order)
        ctx.count("var_order")
    with ctx.sut("saving"):
        m.save(path, **kw)
    ctx.check(os.path.exists(path), "no file was written")
    if "var_order" in kw:
        ctx.check(kw["var_order"] == order, "saving changed the variable order of the caller")
    ctx.check(snap_model(m) == snap, "saving changed the model")
    judge_file(ctx, path, order, spec, scm, "written file")
    ctx.count("scm_written" if scm is not None else "bn_written")
    with ctx.sut("reading back"):
        got = cls.read(path)
    want, mp = renamed(spec, order)
    ctx.check(isinstance(got, cls), f"reading gives a {type(got).__name__}")
    judge_model(ctx, got, want, "round trip", scm, mp)
    ctx.count("round_trips")
    ctx.seen(scm is not None, vt, len(spec.vars), len(spec.edges), bool(kw))
    if rng.random() < .7:
        with ctx.sut("second round trip"):
            got.save(path, var_order=[mp[v] for v in order])
            got2 = cls.read(path)
        judge_model(ctx, got2, want, "second round trip", scm, mp)
        ctx.count("second_round_trip")
    if rng.random() < .2:
        t = gen.pick_state(rng, spec.vars)
        with ctx.sut("querying the model read"):
            p = VariableElimination(got.to_multinomial() if scm is not None else got).query(mp[t])
        expect(ctx, p, want.posterior([mp[t]], {})[0], "marginal of the model read", tol=1e-9)
        ctx.count("answers_after")
    # foreign files
    path2 = os.path.join(ctx.scratch, f"f{i}.uai")
    order2 = gen.choose(rng, spec.vars, len(spec.vars))
    write_foreign(rng, path2, spec, order2, scm)
    before = open(path2).read()
    if rng.random() < .5:
        opts = dict(var_prefix=["V", "X", "node"][rng.integers(3)], init_var_id=int(rng.integers(0, 3)), init_var_state=int(rng.integers(0, 3)))
        want2, mp2 = renamed(spec, order2, opts["var_prefix"], opts["init_var_id"], opts["init_var_state"])
        if scm is not None and rng.random() < .5:
            opts["cast_multinomial"] = bool(rng.random() < .5)
        with ctx.sut(f"reading a foreign file with {opts}"):
            got = rd.from_uai(path2, **opts)
        ctx.count("reader_options")
    else:
        opts = None
        want2, mp2 = renamed(spec, order2)
        with ctx.sut("reading a foreign file"):
            got = cls.read(path2)
    judge_model(ctx, got, want2, f"foreign file (options {opts})", scm, mp2)
    ctx.check(open(path2).read() == before, "reading changed the file")
    ctx.count("scm_foreign" if scm is not None else "bn_foreign")
    # refusals
    other = BayesianNetwork if scm is not None else StructuralCausalModel
    ctx.rejects("reading a file with the label of another kind of model", lambda: other.read(path2))
    ctx.rejects("an unknown format", lambda: m.save(os.path.join(ctx.scratch, "m.xyz")))
    kept = open(path).read()
    ctx.rejects("an incomplete variable order", lambda: m.save(path, var_order=order[:-1] + ["Nope"]))
    ctx.check(open(path).read() == kept, "a refused save overwrote the file")
    ctx.count("rejected")
    for p in (path, path2):
        os.remove(p)
    if i < 2:
        ctx.sample({"vars": spec.vars, "order": order, "file": before[:200]})
