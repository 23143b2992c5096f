"""C26 queries answered from data are the relative frequencies of the data; counting and filtering data."""
import numpy as np

from .. import gen
from ..obs import snap_df, table
from ..ref import T
from .c30 import neighbours

ID = "C26"
CASES = {"quick": 1200, "thorough": 40000}
NEED = {"marginal": 500, "conditional": 400, "with_evidence": 500, "counts": 400, "counts_normalised": 150, "empty_counts": 60, "filtered": 400, "missing": 100,
        "state_without_rows": 150, "column_order": 200, "index_shuffled": 200, "extra_columns": 100, "no_preprocess": 100, "reused": 300, "many_rows": 12, "neighbouring": 100, "rejected": 60}
RULE = ("random tables of data (1-5 columns of 1-4 states of any type, 1-80 rows, repeated rows, states that never occur, permuted columns, shuffled or repeated index, extra "
        "columns; optionally missing cells in columns of text) queried for random targets, conditioning variables and evidence with the same engine several times; each answer must "
        "be the relative frequency among the rows that match, recounted row by row; counts (plain, normalised, of no data) and filters are recounted likewise; data and "
        "domains must stay unchanged. Distinct = (columns, rows, sizes of target/conditioning/evidence, options).")
ASSUMPTIONS = ["evidence (and conditioning configuration) occurs in the data", "missing cells are only counted in columns of text, as an additional state"]


def recount(rows, doms, vs):
    n = np.zeros([len(doms[v]) for v in vs])
    for r in rows:
        n[tuple(doms[v].index(r[v]) for v in vs)] += 1
    return T({v: doms[v] for v in vs}, n)


def same(ctx, f, want, mask, what):
    got = table(f)
    ctx.check(set(got.vars) == set(want.vars), f"{what}: variables {got.vars} instead of {want.vars}")
    for v in want.vars:
        ctx.check(len(got.doms[v]) == len(want.doms[v]) and all(s in got.doms[v] for s in want.doms[v]), f"{what}: states {got.doms[v]} of {v} instead of {want.doms[v]}")
    a = got.aligned(want.doms)
    bad = ~(np.isclose(a, want.a, rtol=1e-9, atol=1e-12)) & mask
    ctx.check(not bad.any(), f"{what}: {a.tolist()} instead of {want.a.tolist()}")


def case(ctx, rng, i):
    import pandas as pd
    from bcause.inference.probabilistic.datainference import LaplaceInference
    from bcause.util.datautils import filter_data, to_counts
    k = int(rng.integers(1, 6))
    vs = gen.names(rng, k)
    miss = i % 5 == 3
    kinds = ["str", "strnum"] if miss else ["range", "str", "offset", "desc", "float", "bool", "strnum", "shufint"]
    if rng.random() < .4:
        kinds = ["common"] if miss else [["range"], ["common"]][rng.integers(2)]          # the same states in every column
    doms = {}
    for v in vs:
        kind = [kinds[rng.integers(len(kinds))]]
        doms[v] = gen.states(rng, v, 2 if kind == ["bool"] else int(rng.integers(1, 5)), kind)
    n = int(rng.choice([1, 3, 10, 80]))
    pool = [{v: gen.pick_state(rng, doms[v]) for v in vs} for _ in range(int(rng.integers(1, 12)))]
    rows = [dict(pool[rng.integers(len(pool))]) for _ in range(n)]
    if i % 31 == 6:
        rows = [dict(r) for r in gen.long_rows(rng, rows)]
        n = len(rows)
        ctx.count("many_rows")
    if miss:
        for r in rows:
            for v in vs:
                if rng.random() < .2:
                    r[v] = None
    cols = [vs[j] for j in rng.permutation(k)]
    if cols != vs:
        ctx.count("column_order")
    marker = float("nan") if rng.random() < .5 else None
    df = pd.DataFrame({v: pd.Series([marker if r[v] is None else r[v] for r in rows], dtype=object if miss else None) for v in cols})
    df = gen.column_types(rng, df, ctx, .35)
    if rng.random() < .3:
        df["other"] = np.arange(n)
        ctx.count("extra_columns")
    if rng.random() < .4:
        df.index = rng.integers(0, 5, n) if rng.random() < .5 else rng.permutation(n) + 7
        ctx.count("index_shuffled")
    od = {v: list(doms[v]) for v in gen.choose(rng, vs, k)}
    ctx.note(rows=rows[:30], doms=doms, columns=list(df.columns))
    snap, ds = snap_df(df), repr(od)
    pre = rng.random() < .65
    ctx.count("no_preprocess", int(not pre))
    with ctx.sut("building the engine"):
        inf = LaplaceInference(df, od) if pre and rng.random() < .7 else LaplaceInference(df, od, preprocess_flag=pre)
    if any(all(r[v] != s for r in rows) for v in vs for s in doms[v]):
        ctx.count("state_without_rows")
    asked = []
    for q in range(4):
        t = gen.choose(rng, vs, int(rng.integers(1, k + 1)))[:3]
        rest = [v for v in vs if v not in t]
        c = gen.choose(rng, rest, int(rng.choice([0, 0, 1, 2])))
        pt = rows[rng.integers(n)]
        ev = {v: pt[v] for v in gen.choose(rng, [v for v in rest if v not in c and pt[v] is not None], int(rng.integers(0, 3)))}
        if asked and rng.random() < .5:                          # an earlier evidence, moved to other columns, other states or another order
            e0 = asked[rng.integers(len(asked))]
            cand = [e for e in gen.choose(rng, neighbours(rng, {v: doms[v] for v in vs if v not in t + c}, e0, t + c)) if not set(e) & set(t + c)]
            cand = [e for e in cand if e and any(all(r[v] is not None and r[v] == s for v, s in e.items()) for r in rows)]
            if cand:
                ev = cand[0]
                ctx.count("neighbouring")
        asked.append(ev)
        sub = [r for r in rows if all(r[v] == s for v, s in ev.items())]
        xd = {v: doms[v] + (["nan"] if any(r[v] is None for r in sub) else []) for v in t + c}
        srows = [{v: "nan" if r[v] is None else r[v] for v in t + c} for r in sub]
        ctx.count("missing", int(any("nan" in d for d in xd.values() if miss)))
        want = recount(srows, xd, t + c)
        mask = np.ones(want.a.shape, bool)
        if c:
            base = recount(srows, xd, c)
            den = want.reduce(t, "sum")
            full = T(want.doms, np.ones(want.a.shape)).combine(den, "*").aligned(want.doms)
            mask = full > 0
            want = T(want.doms, np.divide(want.a, full, out=np.zeros(want.a.shape), where=mask))
        else:
            want = T(want.doms, want.a / len(sub))
        ctx.note(target=t, conditioning=c, evidence=ev)
        with ctx.sut(f"query {t} given {c} and {ev}"):
            if c:
                p = inf.query(gen.as_target(rng, t), conditioning=gen.as_target(rng, c), evidence=ev if ev or rng.random() < .5 else None)
            else:
                p = inf.query(gen.as_target(rng, t), evidence=ev if ev or rng.random() < .5 else None)
        same(ctx, p, want, mask, f"frequencies of {t} given {c} and {ev}")
        ctx.count("conditional" if c else "marginal"), ctx.count("with_evidence", int(bool(ev))), ctx.count("reused", int(q > 0))
        ctx.seen(k, n > 3, len(t), len(c), len(ev), miss, pre)
        # counting and filtering
        with ctx.sut(f"filter by {ev}"):
            fd = filter_data(df, ev)
        ctx.check([{v: None if pd.isna(x) else x for v, x in zip(cols, r)} for r in fd[cols].values.tolist()] == [{v: r[v] for v in cols} for r in sub],
                  f"filter by {ev}: {len(fd)} rows instead of {len(sub)}")
        ctx.count("filtered")
        norm = rng.random() < .4
        cd = {v: list(doms[v]) for v in t}
        with ctx.sut(f"counts of {t}"):
            f = to_counts(cd, df, normalize=True) if norm else to_counts(cd, df)
        xd = {v: doms[v] + (["nan"] if any(r[v] is None for r in rows) else []) for v in t}
        w = recount([{v: "nan" if r[v] is None else r[v] for v in t} for r in rows], xd, t)
        if norm:
            w = T(w.doms, w.a / w.a.sum())
        same(ctx, f, w, np.ones(w.a.shape, bool), f"counts of {t}")
        ctx.check(cd == {v: doms[v] for v in t}, "counting changed the domains")
        ctx.count("counts_normalised" if norm else "counts")
    if i % 8 == 0:
        with ctx.sut("counts of no data"):
            f = to_counts({v: list(doms[v]) for v in vs[:2]})
        ctx.check(not np.any(table(f).a) and set(f.variables) == set(vs[:2]), f"counts of no data: {f}")
        ctx.count("empty_counts")
    if i % 8 == 1 and k > 1:
        ctx.rejects("target also in the evidence", lambda: inf.query(vs[0], evidence={vs[0]: doms[vs[0]][0]}))
        ctx.rejects("repeated target", lambda: inf.query([vs[0], vs[0]]))
        ctx.rejects("target also conditioned on", lambda: inf.query(vs[:2], conditioning=vs[1]))
        ctx.rejects("unknown target", lambda: inf.query("noSuchVariable"))
        ctx.count("rejected")
    if miss is False and i % 8 == 2 and n > 1:
        num = [v for v in vs if not isinstance(doms[v][0], str)]
        if num:
            d2 = df.astype(object).copy()
            d2.iloc[0, list(d2.columns).index(num[0])] = None
            ctx.rejects("missing cells in a column that is not of text", lambda: to_counts({num[0]: list(doms[num[0]])}, d2))
    ctx.check(snap_df(df) == snap and repr(od) == ds, "querying changed the data or the domains of the caller")
    if i < 3:
        ctx.sample({"columns": cols, "rows": len(rows), "target": t, "conditioning": c, "evidence": ev, "answer": repr(p)})
