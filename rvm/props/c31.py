"""C31 interval factors hold a lower and an upper table and reading or restricting them keeps both."""
import itertools

import numpy as np

from .. import gen
from ..obs import expect, snap_factor
from ..ref import T
from .c16 import bounds

ID = "C31"
CASES = {"quick": 1500, "thorough": 50000}
NEED = {"built": 500, "from_precise": 240, "restricted": 1000, "restricted_fully": 200, "list_restricted": 60, "cells": 3000, "sides": 1500, "chained": 250, "unknown_ignored": 120, "values_order": 600, "listed_probs": 600,
        "backend:numpy": 100, "backend:numpy1d": 100, "backend:list": 100, "backend:treedict": 100, "permuted_operands": 100, "rejected": 200, "scalar_values": 35, "sides_differ_styles": 500}
RULE = ("random domains (0-4 variables), pairs of tables given nested, flat, as arrays or as a scalar, all three ways of naming the sides, every backend, and factors built from 1-6 precise factors that list their variables in "
        "different orders; variables, domains, sides and every cell of both bounds are read through the single-cell, list and store interfaces and after chains of restrictions (single states, several states, variables it does not have); "
        "tables of different shapes and precise factors of different domains must be refused and nothing may change. Distinct = (variables, sizes, style, backend, restriction).")
ASSUMPTIONS = ["restriction to several states is only implemented by the default backend (others may refuse)", "values_array of an interval factor is not judged (it has no documented meaning)"]


def judge(ctx, f, lo, up, left, what):
    doms = lo.doms
    ctx.check({v: list(d) for v, d in f.domain.items()} == doms and set(f.variables) == set(doms), f"{what}: domain {dict(f.domain)}, variables {f.variables} instead of {doms}")
    ctx.check(set(f.left_vars) == set(left) and set(f.right_vars) == set(doms) - set(left) and set(f.left_domain) == set(left) and set(f.right_domain) == set(doms) - set(left),
              f"{what}: sides {f.left_vars} | {f.right_vars} instead of {sorted(left)} | rest of {list(doms)}")
    ctx.count("sides")
    l, u = bounds(f)
    expect(ctx, l, lo, f"{what}: lower values", tol=1e-12)
    expect(ctx, u, up, f"{what}: upper values", tol=1e-12)
    ctx.check(np.allclose([float(np.ravel(x)[0]) for x in f.values], list(l.aligned(doms_order(f)).ravel()) + list(u.aligned(doms_order(f)).ravel()), atol=1e-12), f"{what}: values {f.values}")
    ctx.count("values_order")
    names = list(doms)
    grid = list(itertools.product(*doms.values()))
    for c in [grid[k] for k in np.random.default_rng(len(grid)).permutation(len(grid))[:4]]:
        o = dict(zip(names, c))
        with ctx.sut(f"{what}: value at {o}"):
            g = f.get_value(**o)
            p = f.prob([o])
        ctx.check(len(g) == 2 and abs(float(np.ravel(g[0])[0]) - lo.at(o)) < 1e-12 and abs(float(np.ravel(g[1])[0]) - up.at(o)) < 1e-12, f"{what}: value {g} at {o} instead of {(lo.at(o), up.at(o))}")
        ctx.check(len(p) == 1 and tuple(float(np.ravel(x)[0]) for x in p[0]) == tuple(float(np.ravel(x)[0]) for x in g), f"{what}: prob {p} at {o}")
        ctx.count("cells")
    g = np.random.default_rng(len(grid) + 1)
    some = [dict([(v, grid[k][names.index(v)]) for v in [names[j] for j in g.permutation(len(names))]]) for k in g.integers(0, len(grid), 8)]      # in any order of the variables, repeated
    with ctx.sut(f"{what}: probabilities of a list of observations"):
        ps = f.prob([dict(o) for o in some])
    ctx.check(len(ps) == len(some) and all(abs(float(np.ravel(a)[0]) - lo.at(o)) < 1e-12 and abs(float(np.ravel(b)[0]) - up.at(o)) < 1e-12 for (a, b), o in zip(ps, some)), f"{what}: prob {ps} of {some}")
    ctx.count("listed_probs")
    r = repr(f)
    ctx.check(isinstance(r, str) and "_bound" not in f.name, f"{what}: name {f.name}")


def doms_order(f):
    return {v: list(d) for v, d in f.domain.items()}


def case(ctx, rng, i):
    from bcause.factors.imprecise import IntervalProbFactor
    k = int(rng.integers(0, 5)) if i % 10 == 0 else int(rng.integers(1, 5))
    vs = gen.names(rng, k)
    dom = {v: gen.states(rng, v, int(rng.integers(1, 5 if k < 4 else 3))) for v in vs}
    shape = [len(d) for d in dom.values()]
    left = gen.choose(rng, vs, kmin=min(k, 1))
    vt = gen.VTYPES[rng.integers(4)]
    precise = i % 3 == 0 and k > 0
    if precise:
        n = int(rng.integers(1, 7))
        right = [v for v in vs if v not in left]
        tabs = []
        for _ in range(n):
            a = rng.random(shape)
            s = a.sum(axis=tuple(j for j, v in enumerate(vs) if v in left), keepdims=True)
            tabs.append(a / s)
        fs = [gen.factor_obj(rng, dom, vs, a, left=left, permute=rng.random() < .6) for a in tabs]
        ctx.count("permuted_operands", int(any(list(f.domain) != list(fs[0].domain) for f in fs)))
        snaps = [snap_factor(f) for f in fs]
        order = list(fs[0].domain)
        lo, up = T(dom, np.min(tabs, axis=0)), T(dom, np.max(tabs, axis=0))
        ctx.note(dom=dom, left=left, tables=[t.tolist() for t in tabs])
        with ctx.sut(f"interval factor of {n} precise factors"):
            f = IntervalProbFactor.from_precise(fs)
        ctx.check([snap_factor(x) for x in fs] == snaps, "building an interval factor changed the precise factors")
        lo, up = T({v: dom[v] for v in order}, lo.aligned({v: dom[v] for v in order})), T({v: dom[v] for v in order}, up.aligned({v: dom[v] for v in order}))
        ctx.count("from_precise")
        if k and i % 2:
            v = vs[0]
            other = {**dom, v: list(dom[v]) + ([99] if isinstance(dom[v][0], int) and not isinstance(dom[v][0], bool) else [type(dom[v][0])(1.25 if isinstance(dom[v][0], float) else "zz")] if isinstance(dom[v][0], (float, str)) else [])}
            if other[v] != dom[v]:
                g = gen.factor_obj(rng, other, vs, rng.random([len(d) for d in other.values()]), left=left)
                ctx.rejects("precise factors with different domains", lambda: IntervalProbFactor.from_precise(fs + [g]))
                ctx.count("rejected")
        style = "precise"
    else:
        a = rng.random(shape) * .6
        b = a + rng.random(shape) * .4
        style = ["array", "nested", "flat", "scalar"][rng.choice(4, p=[.3, .3, .3, .1])]
        if style == "scalar":
            a, b = np.full(shape, .125), np.full(shape, .75)
            va, vb = .125, .75
            ctx.count("scalar_values")
        else:
            va, vb = {"array": (a, b), "nested": (a.tolist(), b.tolist()), "flat": (a.ravel().tolist(), b.ravel().tolist())}[style]
        kw = [{"left_vars": list(left)}, {"right_vars": [v for v in vs if v not in left]}, {"left_vars": list(left), "right_vars": [v for v in vs if v not in left]}][rng.integers(3)]
        if set(left) == set(vs) and rng.random() < .5:
            kw = {}
        d = {v: list(x) for v, x in dom.items()}
        before = repr((d, va, vb, kw))
        ctx.note(dom=dom, left=left, kw=kw, style=style, vtype=vt)
        with ctx.sut(f"interval factor from {style} with {kw} stored as {vt}"):
            f = IntervalProbFactor(d, va, vb, vtype=vt, **kw)
        ctx.check(repr((d, va, vb, kw)) == before, "building an interval factor changed its arguments")
        ctx.check(f.vtype == vt, f"stored as {f.vtype} instead of {vt}")
        lo, up = T(dom, a), T(dom, b)
        ctx.count("built"), ctx.count(f"backend:{vt}"), ctx.count("sides_differ_styles")
        if i % 4 == 1 and k:
            bad = np.zeros([s + 1 for s in shape])
            ctx.rejects("tables of different shapes", lambda: IntervalProbFactor(dom, a.reshape(shape), bad))
            ctx.rejects("a variable that starts with an underscore", lambda: IntervalProbFactor({"_x": [0, 1]}, [0, 0], [1, 1]))
            ctx.rejects("sides that overlap", lambda: IntervalProbFactor(dom, a, b, left_vars=list(vs), right_vars=list(vs)))
            ctx.count("rejected")
    fz = snap_all(f)
    judge(ctx, f, lo, up, left, "interval factor")
    ctx.seen(k, tuple(shape), style, vt, len(left))
    # chains of restrictions
    g, l, u, lf, many = f, lo, up, set(left), False
    for step in range(int(rng.integers(1, 4))):
        names = list(l.doms)
        if not names:
            break
        if rng.random() < .15:
            with ctx.sut("restricting variables it does not have"):
                h = g.restrict(noSuchVariable=1)
            judge(ctx, h, l, u, lf, "restricted to variables it does not have")
            ctx.count("unknown_ignored")
        r = gen.choose(rng, names, int(rng.integers(1, len(names) + 1)))
        obs = {v: gen.pick_state(rng, l.doms[v]) for v in r}
        multi = None
        if (style == "precise" or vt == "numpy") and rng.random() < .3:
            v = r[0]
            multi = gen.choose(rng, l.doms[v], kmin=1)
            if len(multi) > 1:
                obs[v] = multi
        ctx.note(restriction=obs)
        with ctx.sut(f"restriction to {obs}"):
            h = g.R(**obs) if rng.random() < .5 else g.restrict(**obs)
        gl, gu = l.restrict(obs), u.restrict(obs)
        lf = {v for v in lf if v in gl.doms}
        judge(ctx, h, gl, gu, lf, f"restricted to {obs}")
        ctx.count("restricted"), ctx.count("restricted_fully", int(not gl.doms)), ctx.count("list_restricted", int(any(isinstance(s, list) for s in obs.values()))), ctx.count("chained", int(step > 0))
        g, l, u = h, gl, gu
        ctx.seen("restrict", len(names), len(r), vt, style)
    ctx.check(snap_all(f) == fz, "restricting an interval factor changed it")
    if i < 3:
        ctx.sample({"dom": dom, "left": left, "style": style, "factor": repr(f)})


def snap_all(f):
    return (repr(dict(f.domain)), tuple(f.left_vars), tuple(sorted(f.right_vars)), tuple(float(np.ravel(x)[0]) for x in f.values))
