"""C19 samples follow the distribution they are drawn from."""
import numpy as np

from .. import gen
from ..obs import snap_factor, snap_model, table
from ..ref import idx_of

ID = "C19"
CASES = {"quick": 400, "thorough": 6000}
NEED = {"chi2_tests": 600, "support": 300, "models": 100, "factors": 100, "conditional": 100, "endogenous": 50, "mixed_key_order": 20, "rejected": 60, "tuples": 60,
        "deterministic_equations_followed": 50, "sizes": 100, "alike": 12, "rare": 5}
RULE = ("random Bayesian networks, structural causal models and (joint, conditional) factors in every backend; several hundred to a few thousand draws each; every draw must be "
        "possible (zero cells and violated equations are exact alarms), the counts of every variable given its parents and of random pairs of variables must fit the exact "
        "distribution (chi-square, alarm below 1e-9), sizes, columns and forms must be as requested. Distinct = (source, backend, sizes, form of the result).")
ASSUMPTIONS = ["statistical alarms only below a p-value of 1e-9 (cells with expected count under 5 are pooled)"]


def chi2(obs, exp):
    """p-value of observed counts against expected counts (pooling small cells)."""
    from scipy.stats import chi2 as C
    o, e = np.ravel(obs).astype(float), np.ravel(exp).astype(float)
    big = e >= 5
    oo, ee = list(o[big]), list(e[big])
    if (~big).any() and e[~big].sum() > 0:
        oo.append(o[~big].sum()), ee.append(e[~big].sum())
    oo, ee = np.array(oo), np.array(ee)
    if len(ee) < 2:
        return 1.0
    if ee[-1] < 5 and (~big).any():                     # tail with a tiny expectation: compare conservatively
        oo, ee = oo[:-1], ee[:-1]
        if len(ee) < 2:
            return 1.0
    stat = ((oo - ee) ** 2 / ee).sum()
    return float(C.sf(stat, len(ee)))


def fit(ctx, counts, probs, what):
    n = counts.sum()
    ctx.check(not counts[probs <= 0].any(), f"{what}: impossible states were drawn", counts=counts.tolist(), probs=probs.tolist())
    ctx.count("support")
    p = chi2(counts, probs * n)
    ctx.observed["smallest_p"] = [min(ctx.observed.get("smallest_p", [1.0])[0], p)]
    ctx.check(p > 1e-9, f"{what}: {n} draws do not follow the distribution (p-value {p:.2g})", counts=counts.tolist(), expected=(probs * n).round(1).tolist())
    ctx.count("chi2_tests")


def judge_rows(ctx, rng, spec, rows, what, cols=None):
    cols = cols or spec.vars
    idx = {v: np.array([idx_of(spec.doms[v], r[v]) for r in rows]) for v in cols}
    for v in cols:
        pa = spec.parents[v]
        if any(p not in cols for p in pa):
            continue
        shape = [len(spec.doms[p]) for p in pa] + [len(spec.doms[v])]
        c = np.zeros(shape)
        np.add.at(c, tuple(idx[p] for p in pa) + (idx[v],), 1)
        bad = c[spec.cpt[v] <= 0].sum()
        ctx.check(bad == 0, f"{what}: {v} took states of probability 0 given its parents")
        cc, pp = c.reshape(-1, shape[-1]), spec.cpt[v].reshape(-1, shape[-1])
        for k in np.argsort(-cc.sum(axis=1))[:3]:
            if cc[k].sum() >= 30:
                fit(ctx, cc[k], pp[k], f"{what}: {v} given configuration {k} of {pa}")
    j = spec.joint()
    pairs = [gen.choose(rng, cols, min(2, len(cols))) for _ in range(2)]
    alike = [[a, b] for k, a in enumerate(cols) for b in cols[k + 1:] if spec.cpt[a].shape == spec.cpt[b].shape and np.allclose(spec.cpt[a], spec.cpt[b])]
    ctx.count("alike", len(alike[:3]))
    for s in pairs + alike[:3]:                         # variables that only their names tell apart must still be drawn separately
        t = j.reduce([v for v in spec.vars if v not in s], "sum")
        c = np.zeros(t.a.shape)
        np.add.at(c, tuple(idx[v] for v in t.vars), 1)
        fit(ctx, c, t.a, f"{what}: joint of {t.vars}")


def form(ctx, data, n, cols, pandas, what):
    import pandas as pd
    if pandas:
        ctx.check(isinstance(data, pd.DataFrame) and data.shape == (n, len(cols)) and set(data.columns) == set(cols), f"{what}: {type(data).__name__} of shape {getattr(data, 'shape', None)}, columns {list(getattr(data, 'columns', []))}")
        ctx.check(not data.isna().any().any(), f"{what}: missing values in the sample")
        return data.to_dict("records")
    ctx.check(isinstance(data, list) and len(data) == n and all(set(r) == set(cols) for r in data), f"{what}: not {n} dictionaries over {cols}")
    return data


def case(ctx, rng, i):
    vt = gen.VTYPES[rng.integers(4)] if rng.random() < .4 else None
    n = int(rng.choice([1, 2, 7, 300, 600, 600, 1200]))
    big = n >= 300
    if i % 3 == 0:
        spec = gen.random_bn(rng, 1, 5, 300, lo=1, dens=.15 if rng.random() < .3 else None, twin=rng.random() < .5)
        m = gen.bn_obj(rng, spec, vt)
        scm = None
    elif i % 3 == 1:
        scm = gen.random_scm(rng, (1, 4), (1, 3), 60, twin=rng.random() < .5)
        us = list(scm.exo)
        if len(us) > 1 and rng.random() < .4:
            scm = scm.with_pu({u: scm.pu[us[0]] if len(scm.exo[u]) == len(scm.exo[us[0]]) else p for u, p in scm.pu.items()})
        spec = scm.bn()
        m = gen.scm_obj(rng, scm, vt)
    else:
        m = None
    if m is not None:
        ctx.note(doms=spec.doms, parents=spec.parents, cpt={v: a.tolist() for v, a in spec.cpt.items()}, n=n, vtype=vt)
        snap = snap_model(m)
        pandas = bool(rng.random() < .5)
        with ctx.sut("sampling a model"):
            data = m.sample(n) if pandas and rng.random() < .5 else m.sample(n, as_pandas=pandas)
        rows = form(ctx, data, n, spec.vars, pandas, "sampling a model")
        ctx.check(snap_model(m) == snap, "sampling changed the model")
        judge_rows(ctx, rng, spec, rows, "model sample") if big else [ctx.check(spec.joint().at(r) > 0, f"impossible configuration {r}") for r in rows]
        ctx.count("models"), ctx.count("sizes")
        ctx.seen("model", scm is not None, vt, n, pandas, len(spec.vars))
        if scm is not None:
            for r in rows[:300]:
                for v in scm.endo:
                    a = scm.eq[v][tuple(idx_of(scm.doms[p], r[p]) for p in scm.parents[v])]
                    ctx.check(scm.endo[v][int(a)] == r[v], f"sample {r} violates the equation of {v}")
            ctx.count("deterministic_equations_followed")
            k = 600 if rng.random() < .4 else 5
            pandas = bool(rng.random() < .5)
            with ctx.sut("sampling the endogenous variables"):
                data = m.sampleEndogenous(k, as_pandas=pandas)
            rows = form(ctx, data, k, list(scm.endo), pandas, "sampling the endogenous variables")
            judge_rows(ctx, rng, spec, rows, "endogenous sample", list(scm.endo)) if k > 5 else None
            ctx.count("endogenous")
        ctx.rejects("a sample of size 0", lambda: m.sample(0))
        ctx.count("rejected")
        if i < 3:
            ctx.sample({"vars": spec.vars, "n": n, "rows": rows[:3]})
        return
    for _ in range(4):
        factor_case(ctx, rng)
    if i % 18 == 2:
        rare_case(ctx, rng)


def rare_case(ctx, rng):
    """states of small probability: many draws, so that never or too rarely drawing one is visible."""
    vt = gen.VTYPES[rng.integers(4)] if rng.random() < .4 else None
    n = 9000
    v = gen.names(rng, 1)[0]
    dom = {v: gen.states(rng, v, int(rng.integers(2, 7)))}
    k = len(dom[v])
    small = gen.choose(rng, list(range(k)), int(rng.integers(1, k)))
    p = np.array([rng.uniform(.006, .012) if q in small else 0. for q in range(k)])
    big = [q for q in range(k) if q not in small]
    p[big] = (1 - p.sum()) * rng.dirichlet(np.ones(len(big)) * 5)
    cond = rng.random() < .4
    ctx.note(dom=dom, p=p.tolist(), n=n, vtype=vt, conditional=cond)
    if cond:
        f = gen.factor_obj(rng, {"Zq": [0, 1], **dom}, ["Zq", v], np.array([p, p[::-1]]), left=[v], vtype=vt)
        with ctx.sut("conditional sampling"):
            res = f.sample_conditional([{"Zq": 0}] * n, varnames=True)
    else:
        f = gen.factor_obj(rng, dom, [v], p, left=[v], vtype=vt)
        with ctx.sut("sampling a factor"):
            res = f.sample(n, varnames=True)
    ctx.check(len(res) == n, f"{len(res)} draws instead of {n}")
    c = np.zeros(k)
    for r in res:
        c[idx_of(dom[v], r[v])] += 1
    fit(ctx, c, p, "sample with rare states")
    ctx.count("rare"), ctx.seen("rare", vt, k, len(small), cond)


def factor_case(ctx, rng):
    vt = gen.VTYPES[rng.integers(4)] if rng.random() < .4 else None
    n = int(rng.choice([1, 2, 7, 300, 500, 800]))
    big = n >= 300
    k = int(rng.integers(1, 4))
    vs = gen.names(rng, k)
    doms = gen.domains(rng, vs, 1, 4, ["range", "str", "desc", "bool", "shufint", "offset", "float"])
    nl = int(rng.integers(1, k + 1))
    left, right = vs[:nl], vs[nl:]
    cells = int(np.prod([len(doms[v]) for v in left]))
    rowsn = int(np.prod([len(doms[v]) for v in right])) if right else 1
    arr = np.array([gen.simplex(rng, cells) for _ in range(rowsn)]).reshape([len(doms[v]) for v in right + left])
    if rng.random() < .3 and not right:
        arr = arr * float(rng.choice([3., .25]))        # not normalised: sampled proportionally
    f = gen.factor_obj(rng, doms, right + left, arr, left=left, vtype=vt)
    ctx.note(doms=doms, left=left, right=right, values=arr.tolist(), n=n, vtype=vt)
    s0 = snap_factor(f)
    ctx.count("factors"), ctx.count("sizes")
    names = bool(rng.random() < .6)
    lv = [v for v in f.variables if v in left]

    def counts(res, pick=None):
        c = np.zeros([len(doms[v]) for v in left])
        for q, r in enumerate(res):
            if pick is not None and not pick[q]:
                continue
            d = r if names else dict(zip(lv, r))
            ctx.check(set(d) == set(left), f"a draw assigns {sorted(d)} instead of {sorted(left)}")
            c[tuple(idx_of(doms[v], d[v]) for v in left)] += 1
        return c

    if not right:
        with ctx.sut("sampling a factor"):
            res = f.sample(n, varnames=names) if n > 1 or rng.random() < .5 else f.sample(varnames=names)
        ctx.check(isinstance(res, list) and len(res) == n, f"{len(res)} draws instead of {n}")
        if not names:
            ctx.check(all(len(r) == len(left) for r in res), "draws without names do not have one state per variable")
            ctx.count("tuples")
        c = counts(res)
        fit(ctx, c, arr / arr.sum(), "factor sample") if big else ctx.check(not c[arr <= 0].any(), "impossible state drawn")
        ctx.rejects("a sample of size 0", lambda: f.sample(0))
        ctx.rejects("a sample of negative size", lambda: f.sample(-2))
    else:
        obs = []
        extra = rng.random() < .3
        for _ in range(n):
            o = {v: gen.pick_state(rng, doms[v]) for v in right}
            if extra:
                o["Zextra"] = int(rng.integers(3))
            obs.append(o)
        if len(obs[0]) > 1 and rng.random() < .6:
            obs = [dict(gen.choose(rng, list(o.items()), len(o))) for o in obs]
            ctx.count("mixed_key_order")
        with ctx.sut("conditional sampling"):
            res = f.sample_conditional([dict(o) for o in obs], varnames=names)
        ctx.check(len(res) == n, f"{len(res)} draws for {n} observations")
        conf = [tuple(idx_of(doms[v], o[v]) for v in right) for o in obs]
        for cf in sorted(set(conf), key=lambda z: -conf.count(z))[:4]:
            c = counts(res, [x == cf for x in conf])
            pr = arr[cf]
            ctx.check(not c[pr <= 0].any(), f"given configuration {cf} of {right} impossible states were drawn", counts=c.tolist(), probs=pr.tolist())
            if c.sum() >= 100:
                fit(ctx, c, pr, f"conditional sample given configuration {cf} of {right}")
        ctx.count("conditional")
        ctx.rejects("an unconditional sample of a conditional factor", lambda: f.sample(3))
        ctx.rejects("conditional sample without observations", lambda: f.sample_conditional([]))
    ctx.count("rejected")
    ctx.check(snap_factor(f) == s0, "sampling changed the factor")
    ctx.seen("factor", vt, n, names, len(left), len(right))
