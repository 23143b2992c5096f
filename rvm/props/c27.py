"""C27 the observations kept from incomplete data are sufficient, minimal and counted once per row."""
import numpy as np
import pandas as pd

from .. import gen
from ..obs import snap_df, snap_graph
from ..ref import T, d_connected

ID = "C27"
CASES = {"quick": 700, "thorough": 30000}
NEED = {"targets": 900, "rows": 5000, "minimal_rows": 2500, "observed_target_rows": 800, "merged_rows": 800, "posterior_checked": 1200, "expected_counts": 700, "incomplete_rows": 2500,
        "empty_rows": 60, "hidden_columns": 105, "none_marker": 100, "posterior_relevant": 800, "expectation_relevant": 800, "collider_rows": 60, "repeated_call": 200}
RULE = ("random networks (1-6 variables) and tables of 1-30 rows in which cells, whole columns or whole rows are missing; for every target the observations kept for it must be "
        "distinct, each row must contribute its count to exactly one of them, and for rows where the target is missing that one must consist of exactly the observed cells "
        "that are d-connected to the target given the other observed cells (reachability oracle). For a random distribution of the network the posterior of target and parents given the kept "
        "observation must be that given the whole row, so that the expected counts from the kept observations are those from the rows. Distinct = (variables, edges, missingness, rows, kept).")
ASSUMPTIONS = ["columns are variables of the network", "every row has positive probability", "for rows where the target is observed only sufficiency is judged"]


def mb_parents(spec):
    return {v: list(p) for v, p in spec.parents.items()}


def same(a, b):
    return a.keys() == b.keys() and all(a[k] == b[k] for k in a)


def case(ctx, rng, i):
    from bcause.util.datadeps import DataDepAnalysis
    kinds = ["range", "str", "offset", "desc", "float", "bool", "strnum", "shufint"]
    spec = gen.random_bn(rng, 1, 6, 300, cpt_kinds=["pos"], hi=3, kinds=kinds)
    par = mb_parents(spec)
    vs = spec.vars
    cols = gen.choose(rng, vs, kmin=max(1, len(vs) - 2))
    hidden = [v for v in cols if rng.random() < .15]
    rate = float(rng.choice([0, .2, .5]))
    rows = []
    for _ in range(int(rng.choice([1, 3, 12, 30]))):
        p = gen.bn_point(rng, spec)
        rows.append({} if rng.random() < .08 else {v: p[v] for v in cols if v not in hidden and rng.random() >= rate})
    none = rng.random() < .3
    cells = [[r.get(v, None if none else float("nan")) for v in cols] for r in rows]
    if none:
        df = pd.DataFrame({v: pd.Series([c[k] for c in cells], dtype=object) for k, v in enumerate(cols)})
        ctx.count("none_marker")
    else:
        df = pd.DataFrame(cells, columns=cols)
    if rng.random() < .3:
        df.index = rng.integers(0, 4, len(df))
    ctx.count("hidden_columns", int(bool(hidden)))
    g = gen.dag_obj(rng, vs, spec.edges)
    ctx.note(parents=par, columns=cols, rows=rows, none=none)
    snap, gs = snap_df(df), snap_graph(g)
    with ctx.sut("analysis of the data"):
        an = DataDepAnalysis(g, df)
    joint = spec.joint()
    for t in gen.choose(rng, vs, 4):
        with ctx.sut(f"observations kept for {t}"):
            kept = an.get_minimal_obs_counts(t)
            blanket = an.get_minimal_obs_blanket(t)
        kept = [(dict(o), int(c)) for o, c in kept]
        ctx.check(len(blanket) == len(kept) and all(any(same(b, o) for o, _ in kept) for b in blanket), f"{t}: the observations {blanket} and those counted {kept} differ")
        ctx.check(all(not same(a[0], b[0]) for k, a in enumerate(kept) for b in kept[:k]), f"{t}: an observation is listed twice: {kept}")
        ctx.check(sum(c for _, c in kept) == len(rows), f"{t}: counts {kept} of {len(rows)} rows")
        if rng.random() < .3:
            again = an.get_minimal_obs_counts(t)
            ctx.check(len(again) == len(kept) and all(same(a[0], b[0]) and a[1] == b[1] for a, b in zip(again, kept)), f"{t}: different answer when asked again")
            ctx.count("repeated_call")
        fam = par[t] + [t]
        want_n = [0] * len(kept)
        free = {}
        for r in rows:
            ctx.count("rows"), ctx.count("incomplete_rows", int(len(r) < len(vs))), ctx.count("empty_rows", int(not r))
            if t not in r:
                ob = list(r)
                need = {v for v in ob if v in d_connected(par, t, [x for x in ob if x != v])}
                w = {v: r[v] for v in need}
                hit = [k for k, (o, _) in enumerate(kept) if same(o, w)]
                ctx.check(len(hit) == 1, f"{t}: row {r} must be kept as {w}; kept are {kept}")
                want_n[hit[0]] += 1
                ctx.count("minimal_rows"), ctx.count("merged_rows", int(len(w) < len(r)))
                pa_t = set(par[t])
                ctx.count("collider_rows", int(any(v not in pa_t and t not in par[v] and any(set(par[c]) >= {t, v} and c in r for c in vs) for v in need)))
            else:
                free.setdefault(repr(sorted(r.items())), [r, 0])[1] += 1
                ctx.count("observed_target_rows")
        # rows where the target is observed: the kept observation must be part of the row and give the same posterior of the family
        j_of = {}
        for r, n in free.values():
            full = spec.posterior([v for v in fam if v not in r], r, joint)[0]
            cand = []
            for k, (o, _) in enumerate(kept):
                if t in o and all(v in r and r[v] == s for v, s in o.items()):
                    p = spec.posterior([v for v in fam if v not in r], o, joint)[0]
                    if all((v in o) == (v in r) for v in fam) and np.allclose(p.aligned(full.doms), full.a, atol=1e-9):
                        cand.append(k)
            ctx.check(bool(cand), f"{t}: no kept observation stands for row {r}: {kept}")
            ctx.count("posterior_checked")
        for k, (o, c) in enumerate(kept):
            if t not in o:
                ctx.check(c == want_n[k], f"{t}: observation {o} counted {c} times, {want_n[k]} rows reduce to it")
                one = next((r for r in rows if t not in r and all(v in r and r[v] == s for v, s in o.items()) and {v for v in r if v in d_connected(par, t, [x for x in r if x != v])} == set(o)), None)
                if one is not None:
                    a, b = spec.posterior([t], o, joint)[0], spec.posterior([t], one, joint)[0]
                    ctx.check(np.allclose(a.aligned(b.doms), b.a, atol=1e-9), f"{t}: posterior given {o} differs from that given {one}")
                    ctx.count("posterior_checked")
        # conservation: expected counts of the family
        dom = {v: spec.doms[v] for v in fam}
        got, want = np.zeros([len(d) for d in dom.values()]), np.zeros([len(d) for d in dom.values()])
        ok = True
        for src, acc in (([(o, c) for o, c in kept], got), ([(r, 1) for r in rows], want)):
            cache = {}
            for o, c in src:
                key = repr(sorted(o.items()))
                if key not in cache:
                    hid = [v for v in fam if v not in o]
                    p = spec.posterior(hid, o, joint)[0]
                    pt = T(dom, np.zeros(acc.shape))
                    sl = tuple(slice(None) if v in hid else spec.doms[v].index(o[v]) for v in fam)
                    pt.a[sl] = p.aligned({v: spec.doms[v] for v in fam if v in hid})
                    cache[key] = pt.a
                acc += c * cache[key]
        ctx.check(np.allclose(got.sum(axis=tuple(range(len(fam) - 1))), want.sum(axis=tuple(range(len(fam) - 1))), atol=1e-7), f"expected counts of {t}: {got.tolist()} instead of {want.tolist()}")
        ctx.check(np.allclose(got, want, atol=1e-7), f"expected counts of {fam}: {got.tolist()} from the kept observations, {want.tolist()} from the rows")
        ctx.count("expected_counts"), ctx.count("targets")
        ctx.seen(len(vs), len(spec.edges), rate, len(rows), len(kept), bool(hidden), any(t in r for r in rows))
        z = gen.choose(rng, [v for v in vs if v != t], int(rng.integers(0, 4)))
        with ctx.sut(f"relevant variables of {t} given {z}"):
            pr = an.posterior_relevant_vars(t, z)
            er = an.expectation_relevant_vars(t)
        w = {v for v in vs if v != t and v in d_connected(par, t, [x for x in z if x != v])}
        ctx.check(len(pr) == len(set(pr)) and set(pr) == w, f"variables relevant for {t} given {z}: {pr} instead of {sorted(w)}")
        ctx.check(len(er) == len(fam) and set(er) == set(fam), f"variables relevant for the expected counts of {t}: {er} instead of {fam}")
        ctx.count("posterior_relevant"), ctx.count("expectation_relevant")
    ctx.check(snap_df(df) == snap and snap_graph(g) == gs, "the analysis changed the data or the graph of the caller")
    if i < 3:
        ctx.sample({"parents": par, "rows": rows[:5], "target": t, "kept": kept})
