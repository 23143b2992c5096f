"""C34 bounds learnt from data for causal and counterfactual queries lie within the exact bounds compatible with the data."""
import itertools

import numpy as np

from .. import gen
from ..emref import loglik, refbn_of
from ..obs import snap_df, snap_model, table
from ..ref import RefSCM, T, idx_of
from .c16 import bounds

ID = "C34"
CASES = {"quick": 88, "thorough": 2500}
NEED = {"engines": 45, "models": 110, "bounds": 250, "cells": 500, "identified": 60, "unidentified": 70, "rate": 70, "causal": 70, "causal_evidence": 8, "counterfactual": 80, "causation": 60, "instrument": 6,
        "canonical": 6, "nested": 25, "gd": 5, "parallel": 8, "many_increments": 1}
RULE = ("random structural models in which one hidden cause drives 1-3 observed variables through arbitrary or canonical equations (optionally with an observed, unconfounded instrument), and data whose frequencies are exactly those "
        "of some distribution of the hidden cause; engines that learn 2-4 models (in sequence, in threads, in increments, by gradient) asked for interventional, conditional interventional and counterfactual "
        "distributions and probabilities of causation. Exact bounds come from linear programs over all distributions of the hidden cause compatible with the data (relaxed by the measured residual of the fits, which itself must obey the "
        "convergence rate of EM); every learnt interval must be non-empty and inside; identified queries must agree with their value; intervals grow with more models. Distinct = (structure, equations, query, width of exact bounds).")
ASSUMPTIONS = ["data realisable by the model", "one hidden common cause and observed roots, so that exact bounds are linear programs", "fits are judged up to the residual left by the iterations allowed"]


def world(rng, i):
    """hidden U, endogenous with parents U (+ earlier endogenous), optional instrument with its own bijective cause"""
    n = int(rng.choice([1, 2, 2, 2, 2, 3])) if i % 4 else 2
    iv = n < 3 and i % 4 and rng.random() < .35
    canon = n == 2 and not iv and i % 4 == 0
    vs = gen.names(rng, n + (2 if iv else 0) + 1)
    us, vs = [vs[0]], vs[1:]
    endo, parents, eq, exo, pu = {}, {}, {}, {}, {}
    kinds = ["range", "str", "offset", "desc", "strnum", "bool"]
    if iv:
        w, uw = vs[0], vs[-1]
        vs = [w] + vs[1:-1]
        us.append(uw)
        c = int(rng.choice([2, 2, 3]))
        endo[w] = gen.states(rng, w, c, kinds)
        exo[uw] = gen.states(rng, uw, c, kinds)
        parents[w], eq[w] = [uw], rng.permutation(c)
    inner = vs[1:] if iv else vs
    for v in inner:
        endo[v] = gen.states(rng, v, 2 if rng.random() < .8 or canon else 3, kinds)
        pa = [p for p in endo if p != v and rng.random() < .75]
        if canon:
            pa = [p for p in endo if p != v]
        parents[v] = [*pa, us[0]]
        parents[v] = [parents[v][j] for j in rng.permutation(len(parents[v]))]
    if canon:
        nu = 8                                                              # a value of the first x a function to the second
        for k, v in enumerate(inner):
            shp = [nu if p == us[0] else len(endo[p]) for p in parents[v]]
            a = np.zeros(shp, dtype=int)
            for u in range(nu):
                for x in range(2):
                    idx = tuple(u if p == us[0] else x for p in parents[v])
                    a[idx] = (u // 4) if k == 0 else [[0, 0], [0, 1], [1, 0], [1, 1]][u % 4][x]
            eq[v] = a
    else:
        nu = int(rng.integers(3, 15))
        for v in inner:
            shp = [nu if p == us[0] else len(endo[p]) for p in parents[v]]
            eq[v] = rng.integers(0, len(endo[v]), shp)
    exo[us[0]] = gen.states(rng, us[0], nu, ["range", "str", "shufint"])
    nq = rng.multinomial(24, rng.dirichlet(np.full(nu, .7)))
    pu[us[0]] = nq / 24
    mw = None
    if iv:
        mw = rng.integers(1, 4, len(exo[us[1]]))
        pu[us[1]] = mw / mw.sum()
    exo = {u: exo[u] for u in us}
    scm = RefSCM(exo, pu, endo, parents, eq)
    val = scm.world()
    rows = []
    for k, g in enumerate(scm.grid):
        m = int(nq[g[0]] * (mw[g[1]] if iv else 1))
        rows += [{v: endo[v][int(val[v][k])] for v in endo}] * m
    return scm, us[0], rows, iv, canon


class Exact:
    """linear programs over the distributions of the hidden cause"""

    def __init__(self, scm, u, rows, delta, tv):
        from scipy.optimize import linprog
        self.lp, self.scm, self.delta, self.tv = linprog, scm, delta, tv
        self.k = list(scm.exo).index(u)
        self.n = len(scm.exo[u])
        w = np.ones(len(scm.w))
        for j, x in enumerate(scm.exo):
            if x != u:
                w = w * scm.pu[x][scm.grid[:, j]]
        self.rest = w
        val = scm.world()
        obs = scm.observational()
        self.A, self.b = [], []
        for c in np.ndindex(*obs.a.shape):
            ind = np.ones(len(scm.w), bool)
            for v, s in zip(obs.vars, c):
                ind &= val[v] == s
            self.A.append(self.coef(ind))
            self.b.append(obs.a[c])
        self.A, self.b = np.array(self.A), np.array(self.b)

    def coef(self, ind):
        return np.bincount(self.scm.grid[:, self.k], weights=ind * self.rest, minlength=self.n)

    def bounds(self, ind, delta):
        c = self.coef(ind)
        Aub = np.vstack([self.A, -self.A])
        bub = np.concatenate([self.b + delta, -(self.b - delta)])
        out = []
        for s in (1, -1):
            r = self.lp(s * c, A_ub=Aub, b_ub=bub, A_eq=np.ones((1, self.n)), b_eq=[1.0], bounds=(0, 1), method="highs")
            assert r.status == 0, r.message
            out.append(s * r.fun)
        return max(0.0, out[0]), min(1.0, out[1])

    def ratio(self, ind, ev):
        """bounds of P(ind, ev) / P(ev), where P(ev) is observational"""
        p = float(np.sum(self.scm.w * ev))
        d = self.delta * int(np.prod([len(x) for x in self.scm.endo.values()]))
        out = []
        for delta, dd in ((1e-9, 0.0), (self.delta, d)):
            lo, up = self.bounds(ind & ev, delta)
            if delta == self.delta:
                lo, up = lo - self.tv, up + self.tv
            out.append((max(0.0, lo / min(1.0, p + dd)), min(1.0, up / max(1e-12, p - dd))))
        return out


def case(ctx, rng, i):
    import pandas as pd
    from bcause.inference.causal.multi import EMCC, GDCC
    scm, u, rows, iv, canon = world(rng, i)
    gd = i % 9 == 4
    m = gen.scm_obj(rng, scm.with_pu({x: np.full(len(d), 1 / len(d)) for x, d in scm.exo.items()}), cast=True)
    df = gen.other_columns(rng, gen.column_types(rng, pd.DataFrame(rows), ctx, .15), ctx, .1)
    df = df.iloc[rng.permutation(len(df))].reset_index(drop=True)
    n, it = int(rng.integers(2, 5)), int(rng.choice([12, 25, 50]))
    mode = "gd" if gd else ["run", "parallel", "incremental"][rng.integers(3)]
    if mode == "incremental" and rng.random() < .4:
        n, it = int(rng.integers(7, 11)), 4
        ctx.count("many_increments")
    ctx.note(doms=scm.doms, parents=scm.parents, eq={v: a.tolist() for v, a in scm.eq.items()}, pu={x: p.tolist() for x, p in scm.pu.items()}, n=n, iterations=it, mode=mode)
    ms, ds = snap_model(m), snap_df(df)
    steps = []
    endo = list(scm.endo)
    qs = questions(rng, scm)
    with ctx.sut(f"learning {n} models ({mode})"):
        if gd:
            inf = GDCC(m, df, num_runs=n, tol=1e-5, max_iter=400)
            inf.compile()
        elif mode == "incremental":
            inf = EMCC(m, df, max_iter=it, num_runs=n)
            for _ in inf.compile_incremental():
                steps.append([q(inf) for _, q, _ in (qs if n > 6 else qs[:2])])
        else:
            inf = EMCC(m, df, max_iter=it, num_runs=n, parallel=mode == "parallel")
            inf.compile()
    ctx.count("engines"), ctx.count("gd", int(gd)), ctx.count("parallel", int(mode == "parallel")), ctx.count("instrument", int(iv)), ctx.count("canonical", int(canon))
    # residual of the fits, and the rate of convergence of EM for a compatible distribution
    spec = scm.bn()
    best = loglik(spec, rows) / len(rows)
    obs = scm.observational()
    delta, tv = 0.0, 0.0
    learners = getattr(getattr(inf, "_agg", None), "learn_objects", [])
    for k, fit in enumerate(inf.models):
        b = refbn_of(fit, spec)
        j = b.joint().reduce(list(scm.exo), "sum")
        delta = max(delta, float(np.abs(j.aligned(obs.doms) - obs.a).max()))
        for x in scm.exo:
            if x != u:
                d = float(np.abs(b.cpt[x] - scm.pu[x]).sum())
                ctx.check(gd or d < 1e-9, f"model {k}: P({x}) = {b.cpt[x].tolist()}, determined by the data as {scm.pu[x].tolist()}")
                tv = max(tv, d)
        gap = best - loglik(b, rows) / len(rows)
        ctx.check(gap >= -1e-7, f"model {k}: the likelihood of the data exceeds that of their own frequencies by {-gap}")
        if not gd and mode != "incremental" and len(learners) == len(inf.models):
            l = learners[k]
            b0 = refbn_of(l.model_evolution[0], spec)
            steps_done = len(l.model_evolution) - 1
            p, p0 = scm.pu[u], b0.cpt[u]
            kl = float(np.sum(np.where(p > 0, p * np.log(np.where(p > 0, p, 1) / np.maximum(p0, 1e-300)), 0)))
            ctx.check(steps_done == it or gap < 1e-6, f"model {k}: stopped after {steps_done} of {it} iterations with {gap} to gain")
            ctx.check(gap <= kl / max(1, steps_done) + 1e-6, f"model {k}: {gap} below the maximum likelihood after {steps_done} iterations, EM guarantees {kl / max(1, steps_done)}")
            ctx.count("rate")
        ctx.count("models")
    if gd and delta > .1:
        ctx.count("gd_far")
        return
    ex = Exact(scm, u, rows, delta + tv + 1e-9, tv)
    for name, ask, ind in qs:
        with ctx.sut(f"{name} of {n} learnt models"):
            r = ask(inf)
        cells = {(): (r[0], r[1])} if not hasattr(r, "store_low") else None
        if cells is None:
            lo, up = bounds(r)
            cells = {tuple(zip(lo.vars, c)): (lo.a[ix], up.aligned(lo.doms)[ix]) for ix, c in zip(np.ndindex(*lo.a.shape), itertools.product(*lo.doms.values()))}
        widths = []
        for at, (a, b) in cells.items():
            num, ev = ind(dict(at))
            (l0, u0), (l1, u1) = ex.ratio(num, ev)
            ctx.check(a <= b + 1e-9, f"{name} at {dict(at)}: interval [{a}, {b}]")
            ctx.check(l1 - 1e-6 <= a and b <= u1 + 1e-6, f"{name} at {dict(at)}: learnt [{a}, {b}], exact bounds [{l0}, {u0}], relaxed by the residual {delta} of the fits [{l1}, {u1}]")
            widths.append(u0 - l0)
            ctx.count("cells"), ctx.count("identified" if u0 - l0 < 1e-6 else "unidentified")
        ctx.count("bounds"), ctx.count(name.split("(")[0].split()[0] if not name.startswith("P") else "causation")
        ctx.seen(name.split("(")[0], tuple(len(p) for p in scm.parents.values()), len(scm.exo[u]), round(max(widths), 2), mode)
    for k in range(len(steps) - 1):
        for (name, _, _), a, b in zip(qs, steps[k], steps[k + 1]):
            la, ua = (np.array(a[0]), np.array(a[1])) if not hasattr(a, "store_low") else tuple(x.aligned(dict(sorted(x.doms.items()))) for x in bounds(a))
            lb, ub = (np.array(b[0]), np.array(b[1])) if not hasattr(b, "store_low") else tuple(x.aligned(dict(sorted(x.doms.items()))) for x in bounds(b))
            ctx.check((lb <= la + 1e-9).all() and (ub >= ua - 1e-9).all(), f"{name}: with more models the interval shrinks from {[la.tolist(), ua.tolist()]} to {[lb.tolist(), ub.tolist()]}")
            ctx.count("nested")
    ctx.check(snap_model(m) == ms and snap_df(df) == ds, "learning changed the model or the data")
    ctx.sample(dict(structure=scm.parents, mode=mode, residual=delta))


def questions(rng, scm):
    """(name, how to ask an engine, event given the cell -> (indicator, indicator of the evidence) over exogenous configurations)"""
    endo = list(scm.endo)
    one = np.ones(len(scm.w), bool)
    obs = scm.observational()

    def holds(val, d):
        ind = one.copy()
        for v, s in d.items():
            ind &= val[v] == idx_of(scm.endo[v], s)
        return ind

    def p_ev(d):
        return float(np.sum(scm.w * holds(scm.world(), d)))
    out = []
    for _ in range(2):
        x = gen.choose(rng, endo, int(rng.integers(0, min(2, len(endo)) + 1)) if len(endo) > 1 else 0)
        t = gen.choose(rng, [v for v in endo if v not in x], 1 if rng.random() < .7 else 2) or [v for v in endo if v not in x][:1]
        if not t:
            continue
        do = {v: gen.pick_state(rng, scm.endo[v]) for v in x}
        out.append((f"causal({t} | do {do})", lambda inf, t=t, do=do: inf.causal_query(t, do=dict(do)), lambda at, do=do: (holds(scm.world(do), at), one)))
    if len(endo) > 1:
        # interventional with observational evidence on a variable the intervention cannot change
        desc = lambda a: {w for w in endo if reach(scm, a, w)}
        for x in gen.choose(rng, endo, len(endo)):
            safe = [v for v in endo if v not in desc(x) and v != x]
            if not safe:
                continue
            e = safe[rng.integers(len(safe))]
            s = gen.pick_state(rng, scm.endo[e])
            t = [v for v in endo if v not in (x, e)]
            if not t or p_ev({e: s}) < .15:
                continue
            do = {x: gen.pick_state(rng, scm.endo[x])}
            out.append((f"causal_evidence({t[:1]} | do {do}, {e}={s})", lambda inf, t=t[:1], do=do, e=e, s=s: inf.causal_query(t, do=dict(do), evidence={e: s}),
                        lambda at, do=do, e=e, s=s: (holds(scm.world(do), at), holds(scm.world(), {e: s}))))
            break
        for _ in range(2):
            x = endo[rng.integers(len(endo))]
            t = [v for v in endo if v != x][:1] if rng.random() < .5 else gen.choose(rng, [v for v in endo if v != x], 1)
            do = {x: gen.pick_state(rng, scm.endo[x])}
            ev = {}
            for v in gen.choose(rng, endo, int(rng.integers(0, 3))):
                c = {**ev, v: gen.pick_state(rng, scm.endo[v])}
                if p_ev(c) >= .15:
                    ev = c
            out.append((f"counterfactual({t} | do {do}, {ev})", lambda inf, t=t, do=do, ev=ev: inf.counterfactual_query(list(t), do=dict(do), evidence=dict(ev)),
                        lambda at, do=do, ev=ev: (holds(scm.world(do), {v[:-2]: s for v, s in at.items()}), holds(scm.world(), ev))))
        x, y = gen.choose(rng, endo, 2)
        (xt, xf), (yt, yf) = gen.choose(rng, scm.endo[x], 2), gen.choose(rng, scm.endo[y], 2)
        a, b = (xt, xf), (yt, yf)
        both = lambda at: (holds(scm.world({x: xf}), {y: yf}) & holds(scm.world({x: xt}), {y: yt}), one)
        out.append((f"PNS({x}, {y})", lambda inf: inf.prob_necessity_sufficiency(x, y, a, b), both))
        if p_ev({x: xt, y: yt}) >= .15:
            out.append((f"PN({x}, {y})", lambda inf: inf.prob_necessity(x, y, a, b), lambda at: (holds(scm.world({x: xf}), {y: yf}), holds(scm.world(), {x: xt, y: yt}))))
        if p_ev({x: xf, y: yf}) >= .15:
            out.append((f"PS({x}, {y})", lambda inf: inf.prob_sufficiency(x, y, a, b), lambda at: (holds(scm.world({x: xt}), {y: yt}), holds(scm.world(), {x: xf, y: yf}))))
    return out


def reach(scm, a, b):
    todo, seen = [a], set()
    while todo:
        v = todo.pop()
        for w in scm.endo:
            if v in scm.parents[w] and w not in seen:
                seen.add(w)
                todo.append(w)
    return b in seen
