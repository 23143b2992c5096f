"""C01 factor arithmetic is pointwise."""
import operator

import numpy as np

from .. import gen
from ..core import Violation
from ..monitors import OpMonitor
from ..obs import expect, table
from ..ref import T

ID = "C01"
CASES = {"quick": 4800, "thorough": 120000}
NEED = {"op:*": 300, "op:+": 300, "op:-": 300, "op:/": 300, "op:*:scalar": 40, "op:-:rscalar": 20, "op:/:rscalar": 20,
        "numpy": 300, "numpy1d": 300, "list": 300, "treedict": 300, "zero_by_zero": 30, "states_reordered": 100,
        "same_operand": 200,
        "organic_calls": 100}
RULE = ("random factors (0-4 variables, 9 kinds of state labels, any variable order, state order shuffled between operands, 4 storage "
        "backends, signed/zero/probability/large values) combined with the 4 operators, as methods, operators, with scalars on "
        "either side, and in chains; plus every factor operation executed inside variable elimination, causal queries and EM, "
        "observed by a wrapper. Distinct = (backend, operator, overlap pattern of the variables, sizes, state reordering, value kind).")
ASSUMPTIONS = ["values compared with relative/absolute tolerance 1e-9", "x/0 with x != 0 is not judged (only 0/0 = 0 is documented by use)"]

OPS = {"*": operator.mul, "+": operator.add, "-": operator.sub, "/": operator.truediv}
METH = {"*": "multiply", "+": "addition", "-": "subtract", "/": "divide"}


def values(rng, n):
    k = ["prob", "signed", "zeros", "big", "tiny", "int", "one"][rng.integers(7)]
    if k == "prob":
        return k, rng.random(n)
    if k == "signed":
        return k, rng.normal(size=n)
    if k == "zeros":
        return k, rng.random(n) * (rng.random(n) < .5)
    if k == "big":
        return k, rng.normal(size=n) * 10.0 ** rng.integers(0, 7, n)
    if k == "tiny":
        return k, rng.random(n) * 10.0 ** -rng.integers(0, 12, n).astype(float)
    if k == "int":
        return k, rng.integers(-3, 4, n).astype(float)
    return k, np.full(n, 1.0)


def pick(rng, doms, kmax=4, cap=200):
    vs = list(doms)
    k = int(rng.integers(0, min(kmax, len(vs)) + 1))
    out = []
    for i in rng.permutation(len(vs))[:k]:
        out.append(vs[i])
        if np.prod([len(doms[v]) for v in out]) > cap:
            out.pop()
    return out


def make(rng, doms, axes, vtype, shuffle, vk=None):
    n = int(np.prod([len(doms[v]) for v in axes])) if axes else 1
    kind, a = values(rng, n)
    a = a.reshape([len(doms[v]) for v in axes])
    left = [v for v in axes if rng.random() < .6]
    f = gen.factor_obj(rng, doms, axes, a, left=left if rng.random() < .7 and axes else None, vtype=vtype, shuffle_states=shuffle)
    return kind, f, T({v: doms[v] for v in axes}, a)


def rand_scalar(rng):
    k = rng.integers(6)
    return [2, 0, -1.5, float(rng.random()), np.float64(rng.random() + .1), np.int64(3)][k]


def case(ctx, rng, i):
    if i % 40 == 7:
        return organic(ctx, rng)
    vtype = gen.VTYPES[rng.integers(4)]
    deep = rng.random() < .06
    nv = int(rng.integers(1, 6)) if not deep else int(rng.integers(6, 9))
    nm = gen.names(rng, nv)
    kinds = None if rng.random() < .9 else ["tuple"]
    doms = gen.domains(rng, nm, 1, 4, kinds)
    cap = 120 if vtype == "numpy" else 40
    if deep:
        doms, cap = {v: gen.states(rng, v, 2, kinds) for v in nm}, 128
    shuf = rng.random() < .4
    fa, ga = pick(rng, doms, 7 if deep else 4, cap), pick(rng, doms, 5 if deep else 3, cap)
    ctx.count("many_variables", int(len(fa) > 4))
    while np.prod([len(doms[v]) for v in set(fa) | set(ga)] or [1]) > 3 * cap:
        (ga if ga else fa).pop()
    ctx.note(vtype=vtype, doms=doms, f_axes=fa, g_axes=ga, shuffled=shuf)
    kf, f, tf = make(rng, doms, fa, vtype, shuf)
    ctx.count(vtype)
    if rng.random() < .25:                                 # scalar operand
        s = rand_scalar(rng)
        ts = T({}, [float(s)])
        for op in "*+-/":
            if op == "/" and s == 0:
                continue
            ctx.note(op=op, scalar=repr(s))
            with ctx.sut(f"factor {op} scalar {s!r}"):
                r = OPS[op](f, s) if rng.random() < .7 else getattr(f, METH[op])(s)
            expect(ctx, r, tf.combine(ts, op), f"factor {op} {s!r}")
            ctx.count(f"op:{op}"), ctx.count(f"op:{op}:scalar"), ctx.seen(vtype, op, "scalar", len(fa), type(s).__name__)
            if op == "/" and (tf.a == 0).any():
                continue
            with ctx.sut(f"scalar {s!r} {op} factor"):
                r = OPS[op](s, f)
            expect(ctx, r, ts.combine(tf, op), f"{s!r} {op} factor")
            ctx.count(f"op:{op}:rscalar"), ctx.seen(vtype, op, "rscalar", len(fa), type(s).__name__)
        return
    kg, g, tg = make(rng, doms, ga, vtype, shuf)
    same = rng.random() < .1
    if same:                                               # both operands are one object, or share parts of it
        kg, g, tg, ga = kf, f, tf, fa
        if fa and rng.random() < .4:
            v = fa[rng.integers(len(fa))]
            s = gen.pick_state(rng, doms[v])
            with ctx.sut(f"restriction to {v}={s!r}"):
                g = f.R(**{v: s})
            tg, ga = tf.restrict({v: s}), [x for x in fa if x != v]
        ctx.count("same_operand")
    if shuf and any(list(f.domain[v]) != list(g.domain[v]) for v in set(fa) & set(ga)):
        ctx.count("states_reordered")
    if rng.random() < .1:                                  # chains: (f op g) op h, both nestings, and n-ary product
        ha = pick(rng, doms, 2, 12)
        if np.prod([len(doms[v]) for v in set(fa) | set(ga) | set(ha)] or [1]) <= 4 * cap:
            _, h, th = make(rng, doms, ha, vtype, shuf)
            o1, o2 = [["*", "+", "-"][k] for k in rng.integers(0, 3, 2)]
            with ctx.sut("chain"):
                r = OPS[o2](OPS[o1](f, g), h)
            expect(ctx, r, tf.combine(tg, o1).combine(th, o2), f"(f {o1} g) {o2} h", rtol=1e-7, tol=1e-6)
            with ctx.sut("chain"):
                r = OPS[o2](f, OPS[o1](g, h))
            expect(ctx, r, tf.combine(tg.combine(th, o1), o2), f"f {o2} (g {o1} h)", rtol=1e-7, tol=1e-6)
            with ctx.sut("combine_all"):
                r = type(f).combine_all(f, g, h)
            expect(ctx, r, tf.combine(tg, "*").combine(th, "*"), "combine_all", rtol=1e-7, tol=1e-6)
            ctx.count("chains")
    for op in "*+-/":
        a, b, ta, tb = f, g, tf, tg
        if op == "/":
            # x/0 with x != 0 is undefined: make the numerator vanish where the denominator does
            mask = T(tb.doms, (tb.a != 0).astype(float))
            ta = T(ta.doms, ta.a).combine(mask, "*") if rng.random() < .6 and not same else ta
            if set(ta.doms) != set(tf.doms) or not np.array_equal(ta.a, tf.a):
                a = gen.factor_obj(rng, doms, list(ta.doms), ta.a, vtype=vtype, shuffle_states=shuf)
            want = ta.combine(tb, op)
            if not np.isfinite(want.a).all():
                continue
            if (tb.a == 0).any():
                ctx.count("zero_by_zero")
        else:
            want = ta.combine(tb, op)
        ctx.note(op=op)
        before = (table(a).a.copy(), table(b).a.copy()) if rng.random() < .1 else None
        with ctx.sut(f"f {op} g"):
            r = OPS[op](a, b) if rng.random() < .6 else getattr(a, METH[op])(b)
        expect(ctx, r, want, f"f {op} g")
        if before is not None:
            ctx.check(np.array_equal(before[0], table(a).a, equal_nan=True) and np.array_equal(before[1], table(b).a, equal_nan=True),
                      f"f {op} g changed an operand")
        ctx.count(f"op:{op}")
        ctx.seen(vtype, op, len(set(fa) - set(ga)), len(set(ga) - set(fa)), len(set(fa) & set(ga)), shuf, kf, kg,
                 tuple(len(d) for d in want.doms.values()))
    if vtype != "numpy" and rng.random() < .05:
        other = gen.factor_obj(rng, doms, ga, tg.a, vtype="numpy")
        ctx.rejects("operands of different storage backends", lambda: f * other)
    if i < 8:
        ctx.sample({"vtype": vtype, "f": repr(f), "g": repr(g), "f*g": repr(f * g)})


def organic(ctx, rng):
    from bcause.inference.probabilistic.elimination import VariableElimination
    from bcause.inference.causal.elimination import CausalVariableElimination
    from bcause.learning.parameter.expectation_maximization import ExpectationMaximization
    import pandas as pd
    mon = OpMonitor(reductions=False)
    kind = rng.integers(3)
    vtype = gen.VTYPES[rng.integers(4)] if rng.random() < .5 else "numpy"
    ctx.note(organic=int(kind), vtype=vtype)
    with mon.installed():
        if kind == 0:
            spec = gen.random_bn(rng, 2, 6 if vtype == "numpy" else 4, 600)
            m = gen.bn_obj(rng, spec, vtype)
            t = spec.vars[rng.integers(len(spec.vars))]
            ev = {v: spec.doms[v][rng.integers(len(spec.doms[v]))] for v in spec.vars if v != t and rng.random() < .3}
            if spec.posterior([t], ev)[0] is None:
                ev = {}
            VariableElimination(m).query(t, evidence=ev)
            if len(spec.vars) > 1:
                c = [v for v in spec.vars if v != t][0]
                VariableElimination(m).query(t, conditioning=c)
        else:
            spec = gen.random_scm(rng, (1, 3), (1, 3), 60, exo_per_endo=1, allow_childless=False, hi=3, exo_hi=4)
            m = gen.scm_obj(rng, spec, vtype if kind == 1 else "numpy", cast=True)
            vs = list(spec.endo)
            if kind == 1:
                x = vs[rng.integers(len(vs))]
                CausalVariableElimination(m).causal_query(vs[-1] if vs[-1] != x or len(vs) == 1 else vs[0], do={}) if len(vs) == 1 else \
                    CausalVariableElimination(m).counterfactual_query([v for v in vs if v != x][0], do={x: spec.endo[x][0]})
            else:
                data = pd.DataFrame(gen.endo_rows(rng, spec, 12))
                em = ExpectationMaximization(m.randomize_factors(m.exogenous, allow_zero=False), trainable_vars=list(m.exogenous))
                em.run(data, max_iter=2)
    ctx.count("organic_calls", sum(mon.calls.values()))
    ctx.evaluations += mon.checked
    if mon.errors:
        raise Violation("operation inside a workload: " + mon.errors[0], all=mon.errors)
