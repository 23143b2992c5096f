"""C21 exchange with other tools: BIF / XMLBIF files and pgmpy objects carry the same network."""
import os

import numpy as np

from .. import gen
from ..obs import expect, snap_model, table
from ..ref import RefBN, T, idx_of

ID = "C21"
CASES = {"quick": 240, "thorough": 8000}
NEED = {"bif": 15, "xmlbif": 90, "to_pgmpy": 108, "from_pgmpy": 108, "pgmpy_round_trip": 100, "foreign_bif": 4, "scm_files": 20, "isolated": 20, "cpd_values": 300, "rejected": 60, "vtype_read": 39}
RULE = ("random Bayesian networks (any state type, isolated nodes, three parents, every backend, factors in any variable order) are converted to pgmpy, whose own accessors are compared cell by cell; "
        "pgmpy networks built independently (random evidence order) are converted to bcause; BIF and XMLBIF files are written, read by pgmpy and by the library and compared by state position and "
        "by state name when the format can represent it; structural causal models go through the same files. Distinct = (route, backend, sizes, kind of states).")
ASSUMPTIONS = ["the formats store state names as text; XMLBIF (pgmpy) rewrites characters other than letters, digits and underscores in them", "precision 1e-9"]


def judge_bc(ctx, got, spec, what, by_name, tol=1e-9):
    """bcause network against the spec; states by name, or by position and text."""
    ctx.check(set(got.variables) == set(spec.vars), f"{what}: variables {sorted(got.variables)}")
    ctx.check(set(got.graph.edges) == set(spec.edges), f"{what}: arcs {sorted(got.graph.edges)} instead of {sorted(spec.edges)}")
    for v in spec.vars:
        d = list(got.domains[v])
        if by_name == "exact":
            ctx.check(d == spec.doms[v], f"{what}: states of {v}: {d} instead of {spec.doms[v]}")
        elif by_name == "text":
            ctx.check(d == [str(s) for s in spec.doms[v]], f"{what}: states of {v}: {d} instead of {spec.doms[v]} as text")
        else:
            ctx.check(len(d) == len(spec.doms[v]), f"{what}: states of {v}: {d} instead of {spec.doms[v]}")
        f = got.factors[v]
        ctx.check(set(f.left_vars) == {v} and set(f.right_vars) == set(spec.parents[v]), f"{what}: factor {f.name}")
        f = f.to_multinomial() if hasattr(f, "to_multinomial") else f
        ax = spec.parents[v] + [v]
        expect(ctx, f, T({x: list(got.domains[x]) for x in ax}, spec.cpt[v]), f"{what}: {f.name}", tol=tol)


def judge_pg(ctx, pg, spec, what):
    """pgmpy network against the spec through pgmpy's own interface."""
    ctx.check(set(pg.nodes) == set(spec.vars) and set(pg.edges) == set(spec.edges), f"{what}: graph {sorted(pg.edges)} over {sorted(pg.nodes)}")
    ctx.check(pg.check_model(), f"{what}: pgmpy rejects the network")
    for v in spec.vars:
        c = pg.get_cpds(v)
        ctx.check(c is not None and c.variable == v and set(c.variables) == set(spec.parents[v] + [v]), f"{what}: table of {v}")
        for x in c.variables:
            ctx.check(list(c.state_names[x]) == spec.doms[x], f"{what}: states of {x} in the table of {v}: {c.state_names[x]}")
        ctx.check(c.values.shape == tuple(len(spec.doms[x]) for x in c.variables), f"{what}: shape of the table of {v}")
        got = T({x: spec.doms[x] for x in c.variables}, c.values)
        want = T({x: spec.doms[x] for x in spec.parents[v] + [v]}, spec.cpt[v])
        a = got.aligned(want.doms)
        ctx.check(np.allclose(a, want.a, atol=1e-9), f"{what}: table of {v} given {c.variables[1:]}: {a.ravel().tolist()[:8]} instead of {want.a.ravel().tolist()[:8]}")
        ctx.count("cpd_values")


def pg_of(rng, spec):
    import pgmpy.models as pm
    from pgmpy.factors.discrete import TabularCPD
    pg = pm.BayesianNetwork()
    pg.add_nodes_from(gen.choose(rng, spec.vars, len(spec.vars)))
    pg.add_edges_from(gen.choose(rng, spec.edges, len(spec.edges)))
    cs = []
    for v in gen.choose(rng, spec.vars, len(spec.vars)):
        pa = gen.choose(rng, spec.parents[v], len(spec.parents[v]))
        a = np.array(T({x: spec.doms[x] for x in spec.parents[v] + [v]}, spec.cpt[v]).aligned({x: spec.doms[x] for x in [v] + pa}))
        kw = dict(evidence=pa, evidence_card=[len(spec.doms[p]) for p in pa]) if pa else {}
        cs.append(TabularCPD(v, len(spec.doms[v]), a.reshape(len(spec.doms[v]), -1), state_names={x: list(spec.doms[x]) for x in [v] + pa}, **kw))
    pg.add_cpds(*cs)
    return pg


def word(spec):
    return all(str(s).replace("_", "a").isalnum() for d in spec.doms.values() for s in d)


def case(ctx, rng, i):
    import joblib
    with joblib.parallel_backend("threading"):             # pgmpy's BIF reader starts processes otherwise
        run(ctx, rng, i)


def run(ctx, rng, i):
    from bcause.models import BayesianNetwork
    from bcause.models.cmodel import StructuralCausalModel
    from bcause.readwrite import bnread
    from bcause.conversion.pgmpy import toBCauseBNet, toPgmpyBNet, toMultinomialFactor, toTabularCPT
    from pgmpy.readwrite import BIFReader, BIFWriter, XMLBIFReader
    vt = gen.VTYPES[rng.integers(4)] if rng.random() < .5 else None
    gen.PLAIN = (i // 8) % 6 != 5                 # names and states that the file formats cannot hold: only the conversions
    spec = gen.random_bn(rng, 1, 6, 600, lo=1, cpt_kinds=["dir", "grid", "sparse", "det", "unif", "pos"])
    m = gen.bn_obj(rng, spec, vt)
    ctx.note(doms=spec.doms, parents=spec.parents, cpt={v: a.tolist() for v, a in spec.cpt.items()}, vtype=vt)
    ctx.count("isolated", int(any(not spec.parents[v] and not any(v in spec.parents[w] for w in spec.vars) for v in spec.vars)))
    snap = snap_model(m)
    with ctx.sut("conversion to pgmpy"):
        pg = toPgmpyBNet(m)
    judge_pg(ctx, pg, spec, "conversion to pgmpy")
    ctx.count("to_pgmpy")
    ctx.check(snap_model(m) == snap, "conversion to pgmpy changed the model")
    with ctx.sut("conversion back from pgmpy"):
        back = toBCauseBNet(pg, vt) if rng.random() < .5 else toBCauseBNet(pg)
    judge_bc(ctx, back, spec, "there and back through pgmpy", "exact")
    ctx.count("pgmpy_round_trip")
    pg2 = pg_of(rng, spec)
    with ctx.sut("conversion from pgmpy"):
        b2 = toBCauseBNet(pg2, vt)
    judge_bc(ctx, b2, spec, "conversion from pgmpy", "exact")
    if vt:
        ctx.check(all(f.vtype == vt for f in b2.factors.values()), "conversion from pgmpy ignores the backend asked for")
    ctx.count("from_pgmpy")
    v = gen.pick_state(rng, spec.vars)
    with ctx.sut("conversion of a single table"):
        f = toMultinomialFactor(pg2.get_cpds(v))
        c = toTabularCPT(m.factors[v])
    ax = spec.parents[v] + [v]
    expect(ctx, f, T({x: spec.doms[x] for x in ax}, spec.cpt[v]), "single table from pgmpy")
    ctx.check(c.variable == v and set(c.variables) == set(ax), "single table to pgmpy")
    # files
    if gen.PLAIN:
        files(ctx, rng, i, m, spec, vt, snap, pg2)
    else:
        ctx.count("special_names")
    ctx.rejects("reading a missing file", lambda: BayesianNetwork.read(os.path.join(ctx.scratch, "none.bif")))
    ctx.rejects("saving into a missing folder", lambda: m.save(os.path.join(ctx.scratch, "no", "such", "m.bif")))
    ctx.rejects("reading an unknown format", lambda: BayesianNetwork.read(os.path.join(ctx.scratch, "none.txt")))
    ctx.count("rejected")
    if i < 3:
        ctx.sample({"vars": spec.vars, "edges": spec.edges})


def files(ctx, rng, i, m, spec, vt, snap, pg2):
    from bcause.models import BayesianNetwork
    from bcause.models.cmodel import StructuralCausalModel
    from bcause.readwrite import bnread
    from pgmpy.readwrite import BIFWriter
    ext = "bif" if (i // 8) % 7 == 0 else "xmlbif"
    path = os.path.join(ctx.scratch, f"m{i}.{ext}")
    with ctx.sut(f"saving as {ext}"):
        m.save(path)
    ctx.check(snap_model(m) == snap, f"saving as {ext} changed the model")
    with ctx.sut(f"reading {ext}"):
        got = BayesianNetwork.read(path)
    names = "text" if ext == "bif" or word(spec) else "position"
    judge_bc(ctx, got, spec, f"{ext} round trip", names)
    ctx.count(ext)
    ctx.seen(ext, vt, len(spec.vars), len(spec.edges), names, max(map(len, spec.parents.values())))
    if vt and (ext == "xmlbif" or rng.random() < .3):
        with ctx.sut(f"reading {ext} into a backend"):
            g3 = (bnread.from_bif if ext == "bif" else bnread.from_xmlbif)(path, vtype=vt)
        ctx.check(all(f.vtype == vt for f in g3.factors.values()), f"reading {ext} ignores the backend asked for")
        judge_bc(ctx, g3, spec, f"{ext} read into {vt}", names)
        ctx.count("vtype_read")
    if ext == "bif" and rng.random() < .5:                                    # a file this library did not write
        p2 = os.path.join(ctx.scratch, f"f{i}.bif")
        BIFWriter(pg2).write_bif(p2)
        with ctx.sut("reading a BIF file written by pgmpy"):
            got = BayesianNetwork.read(p2)
        judge_bc(ctx, got, spec, "BIF file written by pgmpy", "text")
        os.remove(p2)
        ctx.count("foreign_bif")
    os.remove(path)
    if i % 4 == 1:
        scm = gen.random_scm(rng, (1, 3), (1, 3), 40, kinds=["str", "range"])
        ms = gen.scm_obj(rng, scm, cast=bool(rng.random() < .6))
        ext = "bif" if rng.random() < .15 else "xmlbif"
        path = os.path.join(ctx.scratch, f"s{i}.{ext}")
        ctx.note(scm_doms=scm.doms, scm_parents=scm.parents)
        with ctx.sut(f"saving and reading a structural causal model as {ext}"):
            ms.save(path)
            got = StructuralCausalModel.read(path)
        ctx.check(isinstance(got, StructuralCausalModel) and set(got.endogenous) == set(scm.endo), f"reading {ext}: {type(got).__name__} with endogenous {getattr(got, 'endogenous', None)}")
        judge_bc(ctx, got, scm.bn(), f"{ext} of a structural causal model", "text")
        os.remove(path)
        ctx.count("scm_files")
