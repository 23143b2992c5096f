"""C23 structural equations: degenerate factors, their conversions, canonical and tabulated equations."""
import itertools

import numpy as np

from .. import gen
from ..obs import eq_table, expect, snap_df, snap_factor, table
from ..ref import T, idx_of

ID = "C23"
CASES = {"quick": 900, "thorough": 40000}
NEED = {"equations": 405, "to_multinomial": 405, "back": 405, "constants": 600, "canonical": 135, "canonical_multinomial": 60, "from_data": 135, "eval_points": 5000, "degenerate_judged": 405,
        "casts": 101, "renamed": 200, "rejected": 200}
RULE = ("random equations of 0-3 arguments (any state types except tuples, every position of the left variable, every backend, values given flat or nested) are read point by point, evaluated, "
        "converted to tables and back, set constant and renamed; canonical equations must enumerate every function of the endogenous arguments exactly once, in a table and as an equation; "
        "equations tabulated in data frames in any row and column order; models cast to tables. Distinct = (backend, number of arguments, cardinalities, position of the left variable, route).")
ASSUMPTIONS = ["states that are tuples are not used in equations", "equations are given values for every configuration of the arguments"]


def random_eq(rng, hi=4, nmax=3):
    k = int(rng.integers(0, nmax + 1))
    vs = gen.names(rng, k + 1)
    doms = gen.domains(rng, vs, 1, hi)
    x, pa = vs[0], vs[1:]
    return doms, x, pa, rng.integers(0, len(doms[x]), [len(doms[p]) for p in pa])


class Spec:
    """just enough of a RefSCM for gen.eq_factor_obj"""
    def __init__(self, doms, x, pa, eq):
        self.doms, self.endo, self.parents, self.eq = doms, {x: doms[x]}, {x: pa}, {x: eq}


def one_hot(doms, x, pa, eq):
    a = np.zeros([len(doms[p]) for p in pa] + [len(doms[x])])
    for c in itertools.product(*[range(len(doms[p])) for p in pa]):
        a[c + (int(eq[c]),)] = 1.0
    return T({v: doms[v] for v in pa + [x]}, a)


def judge_eq(ctx, f, doms, x, pa, eq, what):
    ctx.check(list(f.left_vars) == [x] and set(f.right_vars) == set(pa), f"{what}: {f.name} instead of {x} = f({pa})")
    ctx.check(set(f.domain) == set(pa + [x]) and all(list(f.domain[v]) == list(doms[v]) for v in pa + [x]), f"{what}: domain {dict(f.domain)}")
    for c in itertools.product(*[range(len(doms[p])) for p in pa]):
        at = {p: doms[p][k] for p, k in zip(pa, c)}
        want = doms[x][int(eq[c])]
        got = f.get_value(**at)
        ctx.check(np.ndim(got) == 0 and got == want, f"{what}: at {at} the value is {got!r} instead of {want!r}")
        for s in doms[x]:
            ctx.check(bool(f.eval(**{**at, x: s})) == (s == want), f"{what}: at {at} the state {s!r} is {'not ' if s == want else ''}accepted")
        ctx.count("eval_points")


def case(ctx, rng, i):
    import pandas as pd
    from bcause.factors import DeterministicFactor, MultinomialFactor
    from bcause.factors.deterministic import canonical_deterministic
    from bcause.factors.mulitnomial import canonical_multinomial
    vt = gen.VTYPES[rng.integers(4)] if rng.random() < .5 else None
    doms, x, pa, eq = random_eq(rng)
    ctx.note(doms=doms, left=x, args=pa, eq=eq.tolist(), vtype=vt)
    sp = Spec(doms, x, pa, eq)
    with ctx.sut("building an equation"):
        f = gen.eq_factor_obj(rng, sp, x, vt)
    judge_eq(ctx, f, doms, x, pa, eq, "equation")
    ctx.count("equations")
    s0 = snap_factor(f)
    oh = one_hot(doms, x, pa, eq)
    with ctx.sut("converting to a table"):
        m = f.to_multinomial(as_int=True) if rng.random() < .3 else f.to_multinomial()
    ctx.check(type(m) is MultinomialFactor, f"to_multinomial gives a {type(m).__name__}")
    expect(ctx, m, oh, "equation as a table", tol=0, rtol=0)
    ctx.check(list(m.left_vars) == [x] and set(m.right_vars) == set(pa), f"equation as a table: {m.name}")
    ctx.check(m.is_degenerate(), "the table of an equation is not degenerate")
    if vt:
        ctx.check(m.vtype == vt, f"the table of an equation stored as {vt} is stored as {m.vtype}")
    ctx.count("to_multinomial")
    # from a table in any layout back to an equation
    m2 = m if rng.random() < .5 else gen.factor_obj(rng, doms, pa + [x], oh.a, left=[x], vtype=vt)
    with ctx.sut("converting a degenerate table to an equation"):
        b = m2.to_deterministic()
    judge_eq(ctx, b, doms, x, pa, eq, "equation of a degenerate table")
    ctx.count("back")
    a = oh.a.copy()
    if rng.random() < .6 and len(doms[x]) > 1:
        a.ravel()[int(rng.integers(a.size))] = float(rng.choice([.5, 2., 1e-3, .999, -1.]))
    g = gen.factor_obj(rng, doms, pa + [x], a, left=[x], vtype=vt)
    ctx.check(bool(g.is_degenerate()) == bool(np.isin(a, (0., 1.)).all()), f"is_degenerate is {g.is_degenerate()} for {a.ravel().tolist()}")
    ctx.count("degenerate_judged")
    s = gen.pick_state(rng, doms[x])
    for h, nm in ((f, "equation"), (m, "table")):
        with ctx.sut(f"setting an {nm} constant"):
            k = h.constant(s)
        ctx.check(list(k.left_vars) == [x] and not k.right_vars, f"constant {nm}: {k.name}")
        if nm == "equation":
            ctx.check(k.get_value() == s, f"constant equation: {k.get_value()!r} instead of {s!r}")
            k = k.to_multinomial()
        expect(ctx, k, T({x: doms[x]}, [float(q == s) for q in doms[x]]), f"constant {nm}", tol=0, rtol=0)
        ctx.count("constants")
    if rng.random() < .4:
        mp = {v: f"{v}9z" for v in gen.choose(rng, list(doms))}
        with ctx.sut("renaming an equation"):
            r = f.rename_vars(mp)
        nm = lambda v: mp.get(v, v)
        judge_eq(ctx, r, {nm(v): d for v, d in doms.items()}, nm(x), [nm(p) for p in pa], eq, f"renamed equation {mp}")
        ctx.count("renamed")
    ctx.check(snap_factor(f) == s0, "reading or converting an equation changed it")
    ctx.seen("eq", vt, len(pa), tuple(len(doms[p]) for p in pa), len(doms[x]))
    for op in ("multiply", "marginalize", "restrict"):
        ctx.rejects(f"{op} on an equation", lambda: getattr(f, op)(f) if op == "multiply" else getattr(f, op)(x) if op == "marginalize" else f.restrict(**{x: s}))
    ctx.count("rejected")
    # --- canonical equations
    if i % 3 == 0:
        k = int(rng.integers(0, 3))
        vs = gen.names(rng, k + 2)
        cx, u, cpa = vs[0], vs[1], vs[2:]
        cd = {cx: gen.states(rng, cx, int(rng.choice([2, 2, 3]))), **{p: gen.states(rng, p, int(rng.choice([1, 2, 2, 3]))) for p in cpa}}
        ncfg = int(np.prod([len(cd[p]) for p in cpa])) if cpa else 1
        while len(cd[cx]) ** ncfg > 300:
            p = max(cpa, key=lambda q: len(cd[q]))
            cd[p] = cd[p][:-1]
            ncfg = int(np.prod([len(cd[q]) for q in cpa]))
        cd[u] = gen.states(rng, u, len(cd[cx]) ** ncfg, ["range", "str", "desc", "offset"])
        cd = dict(gen.choose(rng, list(cd.items()), len(cd)))
        before = {v: list(d) for v, d in cd.items()}
        ctx.note(canonical={"doms": cd, "left": cx, "exo": u, "pa": cpa})
        multi = rng.random() < .5
        args = (cd, u) + ((list(cpa),) if cpa or rng.random() < .5 else ())
        with ctx.sut("canonical equation"):
            c = (canonical_multinomial if multi else canonical_deterministic)(*args, **({"vtype": vt} if vt else {}))
        ctx.check(cd == before and list(cd) == list(before), "building a canonical equation changed the domains of the caller")
        ctx.check(list(c.left_vars) == [cx] and set(c.right_vars) == set(cpa + [u]), f"canonical {c.name}")
        if multi:
            ctx.check(c.is_degenerate(), "canonical table is not degenerate")
            ctx.count("canonical_multinomial")
            t = table(c).aligned({v: cd[v] for v in [u] + cpa + [cx]})
            ctx.check(np.array_equal(t.sum(axis=-1), np.ones(t.shape[:-1])), "canonical table is not a function")
            fun = t.argmax(axis=-1).reshape(len(cd[u]), -1)
        else:
            fun = np.array([[idx_of(cd[cx], c.get_value(**{u: us, **dict(zip(cpa, pc))})) for pc in itertools.product(*[cd[p] for p in cpa])] for us in cd[u]])
        rows = {tuple(r) for r in fun.tolist()}
        ctx.check(len(rows) == len(cd[cx]) ** ncfg, f"canonical equation of {cx} given {cpa}: {len(rows)} distinct functions instead of {len(cd[cx]) ** ncfg}", functions=sorted(rows)[:10])
        ctx.count("canonical"), ctx.seen("canonical", multi, vt, k, ncfg, len(cd[cx]))
        if vt:
            ctx.check(c.vtype == vt, f"canonical equation stored as {c.vtype} instead of {vt}")
    # --- tabulated in a data frame
    if i % 3 == 1:
        doms, x, pa, eq = random_eq(rng, 3)
        recs = [{**{p: doms[p][k] for p, k in zip(pa, c)}, x: doms[x][int(eq[c])]} for c in itertools.product(*[range(len(doms[p])) for p in pa])]
        recs = gen.choose(rng, recs, len(recs))
        cols = gen.choose(rng, list(doms), len(doms))
        given = rng.random() < .6
        if not given:
            cols = [c for c in cols if c != x] + [x]
        df = pd.DataFrame(recs)[cols]
        if rng.random() < .3:
            df.index = [int(z) for z in rng.permutation(len(df)) + 3]
        ctx.note(tabulated={"doms": doms, "left": x, "rows": recs, "columns": cols})
        sdf, sdom = snap_df(df), {v: list(d) for v, d in doms.items()}
        extra = {**doms, "Unrelated": [0, 1]}
        with ctx.sut("equation from a data frame"):
            f = DeterministicFactor.from_data_frame(df, extra, left_var=x) if given else DeterministicFactor.from_data_frame(df, extra)
        ctx.check(snap_df(df) == sdf and {v: list(d) for v, d in doms.items()} == sdom, "building an equation from a data frame changed it")
        judge_eq(ctx, f, doms, x, pa, eq, "equation from a data frame")
        ctx.count("from_data"), ctx.seen("data", len(pa), cols.index(x), given)
    # --- models
    if i % 4 == 2:
        scm = gen.random_scm(rng, (1, 3), (1, 3), 40)
        ms = gen.scm_obj(rng, scm, vt, deterministic=True, cast=False)
        ctx.note(scm={"doms": scm.doms, "parents": scm.parents})
        ctx.check(ms.has_deterministic, "a model built from equations has none")
        with ctx.sut("casting a model"):
            mm = ms.to_multinomial()
        ctx.check(not mm.has_deterministic and set(mm.endogenous) == set(scm.endo) and set(mm.graph.edges) == set(ms.graph.edges), "cast model")
        bn = scm.bn()
        for v in bn.vars:
            expect(ctx, mm.factors[v], T({w: bn.doms[w] for w in bn.parents[v] + [v]}, bn.cpt[v]), f"factor of {v} in the cast model", tol=0, rtol=1e-15)
        for v in scm.endo:
            judge_eq(ctx, ms.factors[v], {w: scm.doms[w] for w in scm.parents[v] + [v]}, v, scm.parents[v], scm.eq[v], f"equation of {v} in the model")
        auto = gen.scm_obj(rng, scm, vt, deterministic=True, cast=True)
        ctx.check(not auto.has_deterministic, "equations are not cast although asked for")
        ctx.count("casts")
    if i < 3:
        ctx.sample({"left": x, "args": pa, "eq": eq.tolist()})
