"""C02 summing-out, maximising-out and restriction are exact; every read view of a factor agrees."""
import itertools

import numpy as np

from .. import gen
from ..core import Violation
from ..monitors import OpMonitor
from ..obs import expect, table, same_states
from ..ref import T
from .c01 import make, pick, organic as _organic

ID = "C02"
CASES = {"quick": 4800, "thorough": 120000}
NEED = {"op:sum": 500, "op:max": 300, "op:restrict": 500, "op:restrict_list": 80, "view:list": 300, "view:dict": 300,
        "view:array": 300, "numpy": 200, "numpy1d": 200, "list": 200, "treedict": 200, "organic_calls": 100, "removed_all": 50}
RULE = ("random factors in 4 storage backends; marginalise / max-marginalise any subset of variables (one by one, several at once, with "
        "absent names, operator and method forms), restrict to any partial assignment or (numpy backend) lists of states; results and the "
        "list/dict/array/lookup views are compared point by point with brute force; plus every such operation inside inference and EM. "
        "Distinct = (backend, operation, number of variables kept/removed, sizes, value kind).")
ASSUMPTIONS = ["max-marginalisation is not offered by the numpy1d backend, restriction to lists of states only by the numpy backend",
               "values compared with tolerance 1e-9"]


def views(ctx, rng, f, t, what):
    """All read views must denote the same table."""
    doms = {v: list(d) for v, d in f.domain.items()}
    ctx.check(set(doms) == set(t.doms) and set(f.variables) == set(t.doms), f"{what}: variables {list(doms)} instead of {t.vars}")
    names = list(doms)
    space = [dict(zip(names, c)) for c in itertools.product(*doms.values())]
    want = [t.at(s) for s in space]
    for label, got in (("values_list", f.values_list), ("values", f.values)):
        ctx.check(len(got) == len(want) and np.allclose(np.array(got, dtype=float), want, rtol=1e-9, atol=1e-9),
                  f"{what}: {label} does not list the values in domain order", got=list(map(float, got)), want=want)
    ctx.count("view:list")
    vd = f.values_dict
    ctx.check(len(vd) == len(space), f"{what}: values_dict has {len(vd)} entries instead of {len(space)}")
    for key, x in vd.items():
        s = dict(key)
        ctx.check(set(s) == set(names) and np.isclose(float(x), t.at(s), rtol=1e-9, atol=1e-9), f"{what}: values_dict[{key}] = {x}, expected {t.at(s) if set(s) == set(names) else '?'}")
    ctx.count("view:dict")
    if names:
        order = [names[k] for k in rng.permutation(len(names))]
        a = f.values_array(order)
        ctx.check(a.shape == tuple(len(doms[v]) for v in order) and np.allclose(np.asarray(a, dtype=float), t.aligned({v: doms[v] for v in order}), rtol=1e-9, atol=1e-9),
                  f"{what}: values_array({order}) is wrong", got=a.tolist())
        b = f.values_array()
        ctx.check(np.allclose(np.asarray(b, dtype=float), t.aligned(doms), rtol=1e-9, atol=1e-9), f"{what}: values_array() is wrong")
        ctx.count("view:array")
        obs = [space[k] for k in rng.integers(0, len(space), 3)]
        p = f.prob(obs)
        ctx.check(np.allclose([float(x) for x in p], [t.at(s) for s in obs], rtol=1e-9, atol=1e-9), f"{what}: prob() of listed assignments is wrong")
        pos = [s for s in obs if t.at(s) > 0]
        if pos:
            lp = f.log_prob(pos)
            ctx.check(np.allclose([float(x) for x in lp], np.log([t.at(s) for s in pos]), rtol=1e-9, atol=1e-9), f"{what}: log_prob() is wrong")
    deg = all(x in (0.0, 1.0) for x in want)
    ctx.check(bool(f.is_degenerate()) == deg, f"{what}: is_degenerate() says {f.is_degenerate()} for values {want[:8]}")


def case(ctx, rng, i):
    if i % 60 == 7:
        return organic(ctx, rng)
    vtype = gen.VTYPES[rng.integers(4)]
    deep = rng.random() < .06
    nm = gen.names(rng, int(rng.integers(1, 5)) if not deep else 7)
    kinds = None if rng.random() < .9 else ["tuple"]
    doms = gen.domains(rng, nm, 1, 4, kinds)
    if deep:
        doms = {v: gen.states(rng, v, 2, kinds) for v in nm}
    axes = pick(rng, doms, 7 if deep else 4, (150 if vtype == "numpy" else 60) if not deep else 128)
    ctx.count("many_variables", int(len(axes) > 4))
    ctx.note(vtype=vtype, doms=doms, axes=axes)
    kind, f, t = make(rng, doms, axes, vtype, rng.random() < .3)
    if rng.random() < .2:                                        # degenerate tables
        n = int(np.prod([len(doms[v]) for v in axes])) if axes else 1
        t = T({v: doms[v] for v in axes}, (rng.random(n) < .4).astype(float))
        f = gen.factor_obj(rng, doms, axes, t.a, vtype=vtype)
    ctx.count(vtype)
    if rng.random() < .3 and kinds is None:
        views(ctx, rng, f, t, "factor as built")
    for how in ("sum", "max"):
        if how == "max" and vtype == "numpy1d":
            continue
        k = int(rng.integers(0, len(axes) + 1))
        rem = [axes[j] for j in rng.permutation(len(axes))[:k]]
        ctx.note(how=how, remove=rem)
        style = rng.integers(3)
        with ctx.sut(f"{how} out {rem}"):
            if style == 0 or not rem:
                r = (f.marginalize if how == "sum" else f.maxmarginalize)(*rem)
            elif style == 1:
                r = f ** rem if how == "sum" else f ^ rem
            else:                                                # one at a time
                r = f
                for v in rem:
                    r = r ** v if how == "sum" else r ^ v
        want = t.reduce(rem, how)
        expect(ctx, r, want, f"{how} out {rem} ({['call', 'operator', 'one by one'][style]})", rtol=1e-8)
        ctx.count(f"op:{how}")
        if rem and len(rem) == len(axes):
            ctx.count("removed_all")
        ctx.seen(vtype, how, len(axes), len(rem), int(style), kind, tuple(len(doms[v]) for v in axes))
        if rng.random() < .15:
            views(ctx, rng, r, want, f"after {how} out {rem}")
    # restriction
    obs, ext = {}, False
    for v in axes:
        if rng.random() < .5:
            if vtype == "numpy" and rng.random() < .35 and len(doms[v]) > 1:
                m = int(rng.integers(1, len(doms[v]) + 1))
                obs[v] = [doms[v][j] for j in rng.permutation(len(doms[v]))[:m]]
                ext = True
            else:
                obs[v] = doms[v][rng.integers(len(doms[v]))]
    if rng.random() < .3:
        obs["notThere"] = 0
    ctx.note(obs=obs)
    if kinds is not None:
        ext = False
        obs = {v: s for v, s in obs.items() if not isinstance(s, list)}
    with ctx.sut(f"restrict to {obs}"):
        r = f.restrict(**obs) if rng.random() < .5 else f.R(**obs)
    want = t.restrict({v: s for v, s in obs.items() if v in t.doms})
    expect(ctx, r, want, f"restrict to {obs}")
    for v in want.doms:                                          # the kept states stay in domain order
        ctx.check([s for s in f.domain[v] if any(s == x for x in want.doms[v])] == list(r.domain[v]), f"restrict: states of {v} reordered to {r.domain[v]}")
    ctx.count("op:restrict_list" if ext else "op:restrict")
    ctx.seen(vtype, "restrict", len(axes), len(obs), ext, kind, tuple(len(doms[v]) for v in axes))
    if rng.random() < .15 and kinds is None:
        views(ctx, rng, r, want, "after restrict")
    if axes:
        s = {v: doms[v][rng.integers(len(doms[v]))] for v in axes}
        with ctx.sut("lookup"):
            x = f.get_value(**s)
        ctx.check(np.isclose(float(x), t.at(s), rtol=1e-12, atol=1e-12), f"lookup at {s}: {x} instead of {t.at(s)}")
        if kinds is None and rng.random() < .1:
            bad = dict(s)
            bad[axes[0]] = "no such state"
            ctx.rejects(f"lookup of a state outside the domain {bad}", lambda: f.get_value(**bad))
        if rng.random() < .2:                                    # operations commute
            a, b = axes[0], axes[-1]
            if a != b:
                with ctx.sut("restrict/marginalise"):
                    r1 = f.restrict(**{a: s[a]}) ** b
                    r2 = (f ** b).restrict(**{a: s[a]})
                expect(ctx, r1, t.restrict({a: s[a]}).reduce([b], "sum"), "restrict then sum out")
                expect(ctx, r2, t.restrict({a: s[a]}).reduce([b], "sum"), "sum out then restrict")
    if i < 8:
        ctx.sample({"vtype": vtype, "factor": repr(f), "observation": str(obs), "restricted": repr(r)})


def organic(ctx, rng):
    mon = OpMonitor(arithmetic=False)
    from . import c01
    saved = c01.OpMonitor
    c01.OpMonitor = lambda **kw: mon
    try:
        _organic(ctx, rng)
    finally:
        c01.OpMonitor = saved
