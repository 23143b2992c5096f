"""C11 probabilities of causation."""
import numpy as np

from .. import gen
from ..obs import snap_model

ID = "C11"
CASES = {"quick": 900, "thorough": 30000}
NEED = {"PN": 211, "PS": 218, "PNS": 400, "named_states": 188, "inferred_states": 186, "multi_model": 100, "interval": 60, "list_result": 40,
        "rejected": 60, "one_named": 80, "reverse_direction": 30}
RULE = ("random structural causal models with pairs of variables whose true/false states are given explicitly (any two states, any order) or "
        "inferred from the labels (x1/x0, x1/x2, 1/0, True/False, in either order), or given for one of the two and inferred for the other; the three probabilities are compared with enumeration of "
        "the exogenous configurations, for one model and for lists of models (interval = min/max over the models, or list). Ambiguous or "
        "non-binary labels must be refused. Distinct = (query, label style, state order, cause-effect relation, number of models).")
ASSUMPTIONS = ["probabilities conditioned on events of probability below 1e-9 are not judged", "tolerance 1e-7"]


def style_states(rng, v):
    k = rng.integers(6)
    if k == 0:
        st, t, f = [f"{v.lower()}1", f"{v.lower()}0"], 0, 1
    elif k == 1:
        st, t, f = [f"{v.lower()}1", f"{v.lower()}2"], 0, 1
    elif k == 2:
        st, t, f = [1, 0], 0, 1
    elif k == 3:
        st, t, f = [True, False], 0, 1
    elif k == 4:
        st, t, f = [f"{v}1", f"{v}0"], 0, 1
    else:
        st, t, f = [1.0, 0.0], 0, 1
    T, F = st[t], st[f]
    if rng.random() < .5:
        st = st[::-1]
    return st, T, F, int(k)


def probs(scm, x, y, xt, xf, yt, yf):
    out = {}
    w = [{}, {x: xf}]
    r, z = scm.query_multi([("y", y, 1)], w, [(x, xt, 0), (y, yt, 0)])
    out["PN"] = None if r is None or z < 1e-9 else r.at({"y": yf})
    w = [{}, {x: xt}]
    r, z = scm.query_multi([("y", y, 1)], w, [(x, xf, 0), (y, yf, 0)])
    out["PS"] = None if r is None or z < 1e-9 else r.at({"y": yt})
    r, z = scm.query_multi([("a", y, 0), ("b", y, 1)], [{x: xf}, {x: xt}], [])
    out["PNS"] = r.at({"a": yf, "b": yt})
    return out


METH = {"PN": "prob_necessity", "PS": "prob_sufficiency", "PNS": "prob_necessity_sufficiency"}


def case(ctx, rng, i):
    from bcause.inference.causal.elimination import CausalVariableElimination
    from bcause.inference.causal.multi import CausalMultiInference
    from bcause.util.domainutils import identify_true_false
    named = rng.random() < .5
    scm = gen.random_scm(rng, (2, 4), (1, 3), 60, hi=3 if named else 2, exo_hi=4)
    endo = list(scm.endo)
    a, b = [endo[k] for k in rng.permutation(len(endo))[:2]]
    if rng.random() < .8 and scm.bn().descendants(b) and a in scm.bn().descendants(b):
        a, b = b, a
    lab = (None, None)
    if named:
        xs, ys = gen.choose(rng, scm.endo[a], 2), gen.choose(rng, scm.endo[b], 2)
        (xt, xf), (yt, yf) = xs, ys
        kw = dict(true_false_cause=tuple(xs), true_false_effect=tuple(ys))
        ctx.count("named_states")
    else:
        from ..ref import RefSCM
        sa, xt, xf, ka = style_states(rng, a)
        sb, yt, yf, kb = style_states(rng, b)
        if rng.random() < .3 and ka in (2, 3, 5):          # the same labels for both
            sb, yt, yf, kb = [sa, sa[::-1]][rng.integers(2)], xt, xf, ka
        inferred = [(a, sa, xt, xf), (b, sb, yt, yf)]
        endo_d = {**scm.endo, a: sa, b: sb}
        scm = RefSCM(scm.exo, scm.pu, endo_d, scm.parents, scm.eq)
        kw, lab = {}, (ka, kb)
        if rng.random() < .4:                    # the states of one of the two are named, in either order; those of the other follow from the labels
            if rng.random() < .5:
                xt, xf = [(xt, xf), (xf, xt)][rng.integers(2)]
                kw = dict(true_false_cause=(xt, xf))
            else:
                yt, yf = [(yt, yf), (yf, yt)][rng.integers(2)]
                kw = dict(true_false_effect=(yt, yf))
            ctx.count("one_named")
        ctx.count("inferred_states")
        for v, st, T_, F_ in inferred:
            r = identify_true_false(v, list(st))
            ctx.check(tuple(r) == (T_, F_) and type(r[0]) == type(T_), f"true/false of {v} with states {st}: {r} instead of {(T_, F_)}")
    det, cast = rng.random() < .5, rng.random() < .7
    m = gen.scm_obj(rng, scm, deterministic=det, cast=cast)
    ctx.note(doms=scm.doms, parents=scm.parents, eq={v: x.tolist() for v, x in scm.eq.items()}, pu={u: p.tolist() for u, p in scm.pu.items()}, cause=a, effect=b, xt=xt, xf=xf, yt=yt, yf=yf, named=named)
    want = probs(scm, a, b, xt, xf, yt, yf)
    inf = CausalVariableElimination(m)
    names = ["PN", "PS", "PNS"]
    for k in rng.permutation(3):
        n = names[k]
        if want[n] is None:
            continue
        with ctx.sut(f"{n}({a} -> {b})"):
            got = getattr(inf, METH[n])(a, b, **kw)
        ctx.check(np.isscalar(got) or np.ndim(got) == 0, f"{n} is {got!r}, not a number")
        ctx.check(abs(float(got) - want[n]) < 1e-7, f"{n}({a} -> {b}) = {got}, expected {want[n]}")
        ctx.count(n), ctx.seen(n, named, lab, b in scm.bn().descendants(a), len(endo))
        ctx.count("reverse_direction", int(b not in scm.bn().descendants(a)))
    if i < 3:
        ctx.sample({"cause": a, "effect": b, "states": [xt, xf, yt, yf], "expected": want})
    if i % 3 == 1:
        specs = [scm] + [scm.with_pu({u: gen.simplex(rng, len(d), "pos") for u, d in scm.exo.items()}) for _ in range(int(rng.integers(0, 4)))]
        specs = [specs[k] for k in rng.permutation(len(specs))]
        ms = [gen.scm_obj(rng, s, deterministic=det, cast=cast) for s in specs]
        allw = [probs(s, a, b, xt, xf, yt, yf) for s in specs]
        interval = rng.random() < .6
        mi = CausalMultiInference(ms, interval_result=interval)
        for k in rng.permutation(3):
            n = names[k]
            ws = [w[n] for w in allw]
            if any(w is None for w in ws):
                continue
            with ctx.sut(f"{n} over {len(ms)} models"):
                got = getattr(mi, METH[n])(a, b, **kw)
            ctx.check(len(got) == (2 if interval else len(ms)), f"{n} over {len(ms)} models: {got}")
            exp = [min(ws), max(ws)] if interval else ws
            ctx.check(np.allclose(np.array([float(np.ravel(x)[0]) for x in got]), exp, atol=1e-7), f"{n} over {len(ms)} models (interval={interval}): {got}, expected {exp}")
            ctx.count("multi_model"), ctx.count("interval" if interval else "list_result")
            ctx.seen("multi", n, len(ms), interval)
    if rng.random() < .15:
        ctx.rejects("true/false of a non-binary domain", lambda: identify_true_false("X", ["x0", "x1", "x2"]))
        ctx.rejects("true/false of labels that do not say", lambda: identify_true_false("X", [["yes", "no"], ["a1", "a0"], [2, 3], ["x3", "x4"], ["x0", "x2"]][rng.integers(5)]))
        ctx.rejects("true/false of mixed labels", lambda: identify_true_false("X", ["x1", 0]))
        ctx.count("rejected")
