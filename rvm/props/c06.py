"""C06 variable elimination returns the exact posterior / conditional distribution of the network."""
import numpy as np

from .. import gen
from ..obs import expect
from ..ref import RefBN

ID = "C06"
CASES = {"quick": 1600, "thorough": 50000}
NEED = {"posterior": 800, "conditional": 400, "with_evidence": 500, "multi_target": 300, "evidence_on_descendant": 100, "split_api": 100,
        "scm": 80, "bnet": 500, "larger": 20, "long": 30, "family_conditional": 150, "family_conditional_far_evidence": 20, "zero_cells": 100, "irrelevant_evidence": 50, "naive": 25}
RULE = ("random Bayesian networks (1-7 variables, 2-4 states, any density, deterministic/sparse/skewed tables, factors with any variable "
        "order and state order, disconnected parts, 6 naming schemes) and structural causal models, plus sparse networks of up to 14 "
        "variables and classes with features that share one table; random sets of targets, evidence of positive probability and conditioning variables; the answer is compared with "
        "explicit summation of the joint. Distinct = (number of variables, target/evidence/conditioning sizes and their graph relation, backend).")
ASSUMPTIONS = ["evidence has probability above 1e-9; columns of conditioning configurations of probability below 1e-9 are not judged", "tolerance 1e-7"]


def judge(ctx, spec, p, t, c, ev, what):
    ref, z = spec.posterior(t + c, ev)
    if c:
        cond = ref.combine(ref.reduce(t, "sum"), "/")
        pc = ref.reduce(t, "sum")
        ok = pc.aligned({v: ref.doms[v] for v in pc.doms}) > 1e-9
        from ..obs import table, diff_tables
        from ..ref import T
        got = table(p)
        ctx.check(set(got.vars) == set(t + c), f"{what}: variables {got.vars} instead of {t + c}")
        mask = T(pc.doms, ok.astype(float))
        gm = T(cond.doms, got.aligned(cond.doms)).combine(mask, "*") if all(set(map(repr, got.doms[v])) == set(map(repr, cond.doms[v])) for v in cond.doms) else got
        d = diff_tables(gm, cond.combine(mask, "*"), 1e-7, 1e-7)
        ctx.check(d is None, f"{what}: {d}", got=repr(got)[:800], want=repr(cond)[:800])
    else:
        expect(ctx, p, ref, what, tol=1e-7, rtol=1e-7)
    if (ref.a == 0).any():
        ctx.count("zero_cells")


def case(ctx, rng, i):
    from bcause.inference.probabilistic.elimination import VariableElimination
    vtype = gen.VTYPES[rng.integers(4)] if rng.random() < .25 else "numpy"
    if i % 10 == 4:
        scm = gen.random_scm(rng, (1, 4), (1, 3), 80)
        spec = scm.bn()
        if np.prod([len(d) for d in spec.doms.values()]) > 20000:
            scm = gen.random_scm(rng, (1, 3), (1, 2), 20)
            spec = scm.bn()
        m = gen.scm_obj(rng, scm, cast=True)
        ctx.count("scm")
        vtype = "scm"
    elif i % 20 == 13:
        spec, first, last = gen.long_bn(rng)
        m = gen.bn_obj(rng, spec)
        far = {last: gen.pick_state(rng, spec.doms[last])}
        with ctx.sut(f"query of {first} given the other end of a chain of {len(spec.vars)} variables"):
            p = VariableElimination(m).query(first, evidence=far)
        expect(ctx, p, spec.posterior([first], far)[0], f"P({first} | {far}) along a chain of {len(spec.vars)}", tol=1e-7, rtol=1e-7)
        ctx.count("long")
    elif i % 40 == 11:
        spec = gen.big_bn(rng, int(rng.integers(9, 15)), 2)
        m = gen.bn_obj(rng, spec)
        ctx.count("larger")
    elif i % 20 == 6:                            # a class and features that share one table
        k, n = int(rng.integers(2, 4)), int(rng.integers(2, 6))
        nm = gen.names(rng, n + 1)
        doms = {nm[0]: gen.states(rng, nm[0], int(rng.integers(2, 4)))}
        like = gen.states(rng, "F", k)
        t = np.array([gen.simplex(rng, k, "pos") for _ in doms[nm[0]]])
        spec = gen.RefBN({**doms, **{f: list(like) for f in nm[1:]}}, {nm[0]: [], **{f: [nm[0]] for f in nm[1:]}}, {nm[0]: gen.simplex(rng, len(doms[nm[0]]), "pos"), **{f: t.copy() for f in nm[1:]}})
        m = gen.bn_obj(rng, spec, vtype)
        ev = {f: like[0] if rng.random() < .7 else gen.pick_state(rng, like) for f in gen.choose(rng, nm[1:], int(rng.integers(2, n + 1)))}
        ctx.note(doms=spec.doms, parents=spec.parents, evidence=ev)
        with ctx.sut(f"query of {nm[0]} given features with one table"):
            p = VariableElimination(m).query(nm[0], evidence=ev)
        expect(ctx, p, spec.posterior([nm[0]], ev)[0], f"P({nm[0]} | {ev}), features with one table", tol=1e-7, rtol=1e-7)
        ctx.count("naive")
    else:
        spec = gen.random_bn(rng, 1, 7 if vtype == "numpy" else 4, 1500)
        m = gen.bn_obj(rng, spec, vtype, shuffle_states=rng.random() < .15)
        ctx.count("bnet")
    ctx.note(doms=spec.doms, parents=spec.parents, vtype=vtype, cpt={v: c.tolist() for v, c in spec.cpt.items()} if len(spec.vars) < 6 else None)
    inf = VariableElimination(m)
    for q in range(1 if i % 20 == 13 else 4 if vtype != "treedict" else 2):
        if rng.random() < .3:
            inf = VariableElimination(m)
        t = gen.choose(rng, spec.vars, int(rng.choice([1, 1, 2, 3])))
        rest = [v for v in spec.vars if v not in t]
        c = gen.choose(rng, rest, int(rng.choice([0, 0, 1, 2])))
        ev = gen.random_evidence(rng, spec.doms, t + c, 3)
        if rng.random() < .25:
            # the conditional given exactly the parents / the children, with evidence further away
            x = gen.choose(rng, spec.vars, 1)[0]
            near = spec.parents[x] if rng.random() < .7 else [v for v in spec.vars if x in spec.parents[v]]
            if near:
                t, c = [x], gen.choose(rng, near, len(near))
                far = [v for v in spec.vars if v not in t + c and (rng.random() < .5 or x not in spec.parents[v])]
                ev = {v: gen.pick_state(rng, spec.doms[v]) for v in gen.choose(rng, far, int(rng.integers(0, 3)))}
                ctx.count("family_conditional")
                if any(e in spec.descendants(x) and x not in spec.parents[e] for e in ev):
                    ctx.count("family_conditional_far_evidence")
        if np.prod([len(spec.doms[v]) for v in t + c]) > 500:
            continue
        if rng.random() < .8:
            pt = gen.bn_point(rng, spec)
            ev = {v: pt[v] for v in ev}
        ref, z = spec.posterior(t + c, ev)
        if ref is None or z < 1e-9:
            ev = {}
            ref, z = spec.posterior(t + c, ev)
        ctx.note(target=t, conditioning=c, evidence=ev)
        with ctx.sut(f"query {t} given {c} and evidence {ev}"):
            if c:
                p = inf.query(gen.as_target(rng, t), conditioning=gen.as_target(rng, c), evidence=ev if ev or rng.random() < .5 else None)
            elif rng.random() < .2:
                p = inf.compile(gen.as_target(rng, t), ev).run() if ev or rng.random() < .5 else inf.compile(gen.as_target(rng, t)).run()
                ctx.count("split_api")
            else:
                p = inf.query(gen.as_target(rng, t), evidence=ev if ev or rng.random() < .5 else None)
        judge(ctx, spec, p, t, c, ev, f"P({t} | {c}, {ev})")
        ctx.count("conditional" if c else "posterior")
        if ev:
            ctx.count("with_evidence")
        if len(t) > 1:
            ctx.count("multi_target")
        desc = any(e in spec.descendants(x) for e in ev for x in t)
        anc = any(e in spec.ancestors(t) for e in ev)
        if desc:
            ctx.count("evidence_on_descendant")
        if ev and not desc and not anc:
            ctx.count("irrelevant_evidence")
        ctx.seen(len(spec.vars), len(t), len(c), len(ev), desc, anc, vtype)
        if i < 3:
            ctx.sample({"parents": spec.parents, "target": t, "conditioning": c, "evidence": ev, "answer": repr(p)})
    if rng.random() < .1 and len(spec.vars) > 1:
        a, b = spec.vars[0], spec.vars[1]
        ctx.rejects("target also in the evidence", lambda: inf.query(a, evidence={a: spec.doms[a][0]}))
        ctx.rejects("repeated target", lambda: inf.query([a, a]))
        ctx.rejects("target also conditioned on", lambda: inf.query([a, b], conditioning=b))
        ctx.rejects("unknown target", lambda: inf.query("noSuchVariable"))
        ctx.rejects("unknown evidence variable", lambda: inf.query(a, evidence={"noSuchVariable": 0}))
        ctx.rejects("unknown evidence state", lambda: inf.query(a, evidence={b: "no such state"})) if spec.parents[b] == [a] else None
