"""C03 what is conditioned on what: sides of every factor and result, normalisation per configuration of the conditioning."""
import numpy as np

from .. import gen
from ..core import Violation
from ..monitors import OpMonitor
from ..obs import expect, expect_sides, table
from ..ref import T
from .c01 import make, pick

ID = "C03"
CASES = {"quick": 3200, "thorough": 80000}
NEED = {"built": 800, "op:*": 500, "op:/": 300, "op:reduce": 300, "op:restrict": 300, "renamed": 100, "query": 250, "cond_query": 150,
        "organic_calls": 100, "rejected": 100, "normalised": 300}
RULE = ("random conditional factors in 4 backends built with left side, right side, both, neither, single names (also names that are "
        "substrings of others); every product/sum/difference/quotient/marginal/maximum/restriction/renaming is checked for the variables on "
        "each side; every answer of a probabilistic query is checked to be a distribution over the target for each possible configuration of "
        "the conditioning variables; plus all operations inside inference, observed by a wrapper. Distinct = (backend, operation, pattern of "
        "left/right membership of each variable in the operands).")
ASSUMPTIONS = ["columns of impossible conditioning configurations are not judged", "tolerance 1e-8 on sums"]


def sides(f):
    return set(f.left_vars), set(f.right_vars)


def consistent(ctx, f, what):
    l, r = list(f.left_vars), list(f.right_vars)
    ctx.check(len(l) == len(set(l)) and len(r) == len(set(r)) and not set(l) & set(r) and set(l) | set(r) == set(f.variables) == set(f.domain),
              f"{what}: sides {l} | {r} do not partition the variables {list(f.domain)}")
    ctx.check(set(f.left_domain) == set(l) and set(f.right_domain) == set(r), f"{what}: left/right domains {list(f.left_domain)} | {list(f.right_domain)} for {l} | {r}")
    for v in f.domain:
        ctx.check(list((f.left_domain if v in l else f.right_domain)[v]) == list(f.domain[v]), f"{what}: side domain of {v}")


def case(ctx, rng, i):
    if i % 8 == 3:
        return queries(ctx, rng, i)
    from bcause.factors import MultinomialFactor
    vtype = gen.VTYPES[rng.integers(4)]
    nm = gen.names(rng, int(rng.integers(1, 6)), pool=None if rng.random() < .5 else 2)
    doms = gen.domains(rng, nm, 1, 3)
    fa, ga = pick(rng, doms, 4, 40), pick(rng, doms, 3, 40)
    while np.prod([len(doms[v]) for v in set(fa) | set(ga)] or [1]) > 80:
        (ga if ga else fa).pop()
    ctx.note(vtype=vtype, doms=doms, f=fa, g=ga)
    fs = []
    for axes in (fa, ga):
        left = [v for v in axes if rng.random() < .55]
        right = [v for v in axes if v not in left]
        d = {v: doms[v] for v in axes}
        n = int(np.prod([len(x) for x in d.values()])) if d else 1
        vals = rng.random(n) + .05
        style = rng.integers(5)
        kw = dict(vtype=vtype)
        perm = lambda xs: [xs[k] for k in rng.permutation(len(xs))]
        if style == 0:
            kw["left_vars"] = perm(left)
        elif style == 1:
            kw["right_vars"] = perm(right)
        elif style == 2:
            kw["left_vars"], kw["right_vars"] = perm(left), perm(right)
        elif style == 3 and len(left) == 1:
            kw["left_vars"] = left[0]
        elif style == 3 and len(right) == 1:
            kw["right_vars"] = right[0]
        else:
            left, right = list(axes), []
        ctx.note(kw={k: v for k, v in kw.items()})
        with ctx.sut("building a conditional factor"):
            f = MultinomialFactor(d, vals, **kw)
        expect_sides(ctx, f, left, right, f"factor built with {kw}")
        consistent(ctx, f, "factor as built")
        ctx.count("built")
        fs.append((f, set(left), set(right)))
        if axes and style == 2 and rng.random() < .3:
            bad = rng.integers(2)
            ctx.rejects("sides that overlap or miss a variable", lambda: MultinomialFactor(d, vals, left_vars=list(axes), right_vars=[axes[0]], vtype=vtype) if bad
                        else MultinomialFactor(d, vals, left_vars=axes[1:], right_vars=[], vtype=vtype))
            ctx.count("rejected")
    (f, fl, fr), (g, gl, gr) = fs
    allv = fl | fr | gl | gr
    pat = tuple(sorted((v in fl, v in fr, v in gl, v in gr) for v in allv))
    for op, fn in (("*", lambda: f * g), ("+", lambda: f + g), ("-", lambda: f - g)):
        with ctx.sut(f"f {op} g"):
            r = fn()
        expect_sides(ctx, r, fl | gl, allv - (fl | gl), f"f {op} g")
        consistent(ctx, r, f"f {op} g")
        ctx.count(f"op:{op}"), ctx.seen(vtype, op, pat)
    with ctx.sut("f / g"):
        r = f / g
    want_r = fr | gl | gr
    expect_sides(ctx, r, allv - want_r, want_r, "f / g")
    consistent(ctx, r, "f / g")
    ctx.count("op:/"), ctx.seen(vtype, "/", pat)
    s = float(rng.random() + .1)
    for r in (f * s, f / s, f + s, s * f):
        expect_sides(ctx, r, fl, fr, "factor op scalar")
    if fa:
        rem = gen.choose(rng, fa)
        for how in ("sum", "max"):
            if how == "max" and vtype == "numpy1d":
                continue
            with ctx.sut(f"{how} out {rem}"):
                r = f.marginalize(*rem) if how == "sum" else f.maxmarginalize(*rem)
            expect_sides(ctx, r, fl - set(rem), fr - set(rem), f"{how} out {rem}")
            consistent(ctx, r, f"{how} out")
        ctx.count("op:reduce"), ctx.seen(vtype, "reduce", tuple(sorted((v in fl, v in rem) for v in fa)))
        obs = {v: gen.pick_state(rng, doms[v]) for v in gen.choose(rng, fa)}
        with ctx.sut(f"restrict to {obs}"):
            r = f.restrict(**obs)
        expect_sides(ctx, r, fl - set(obs), fr - set(obs), f"restrict to {obs}")
        consistent(ctx, r, "restrict")
        ctx.count("op:restrict"), ctx.seen(vtype, "restrict", tuple(sorted((v in fl, v in obs) for v in fa)))
        if rng.random() < .4:
            ren = {v: f"r_{v}" for v in gen.choose(rng, fa, kmin=1)}
            if len(fa) > 1 and rng.random() < .4:                       # a permutation of the names
                p = rng.permutation(len(fa))
                ren = {fa[k]: fa[p[k]] for k in range(len(fa))}
            ren0 = dict(ren)
            t = table(f)
            with ctx.sut(f"rename {ren}"):
                r = f.rename_vars(ren)
            mp = lambda xs: {ren.get(x, x) for x in xs}
            expect_sides(ctx, r, mp(fl), mp(fr), f"rename {ren}")
            consistent(ctx, r, "rename")
            expect(ctx, r, T({ren.get(v, v): d for v, d in t.doms.items()}, t.a), f"rename {ren}")
            ctx.check(ren == ren0, "rename_vars changed the mapping of the caller")
            ctx.count("renamed")
        if len(fl) == 1 and rng.random() < .5:
            v = next(iter(fl))
            st = gen.pick_state(rng, doms[v])
            with ctx.sut("constant"):
                c = f.constant(st)
            expect(ctx, c, T({v: doms[v]}, [float(x == st) for x in doms[v]]), f"constant({st!r})")
            expect_sides(ctx, c, {v}, set(), "constant")
            ctx.rejects("constant outside the domain", lambda: f.constant("no such state"))
    # conditional distribution from a joint: f / (f summed over targets) is a distribution over the targets for each conditioning
    if fa and (table(f).a > 0).all():
        tgt = gen.choose(rng, fa, kmin=1)
        with ctx.sut("conditioning a joint"):
            c = f / f.marginalize(*tgt)
        sums = table(c).reduce(tgt, "sum")
        ctx.check(np.allclose(sums.a, 1, atol=1e-8), f"joint / marginal does not sum to one over {tgt}", sums=sums.a.ravel().tolist())
        ctx.check(set(fa) - set(tgt) <= set(c.right_vars) and not set(tgt) & (set(c.right_vars) - fr), f"joint / marginal over {tgt}: sides {c.left_vars} | {c.right_vars}")
        ctx.count("normalised")
    if i < 8:
        ctx.sample({"f": f.name, "g": g.name, "f*g": (f * g).name, "f/g": (f / g).name, "vtype": vtype})


def queries(ctx, rng, i):
    from bcause.inference.probabilistic.elimination import VariableElimination
    vtype = gen.VTYPES[rng.integers(4)] if rng.random() < .4 else "numpy"
    spec = gen.random_bn(rng, 2, 6 if vtype == "numpy" else 4, 500, cpt_kinds=["dir", "pos", "grid", "sparse"])
    m = gen.bn_obj(rng, spec, vtype)
    mon = OpMonitor(arithmetic=False, reductions=False, sides=True)
    ctx.note(organic=True, vtype=vtype, doms=spec.doms, parents=spec.parents)
    with mon.installed():
        inf = VariableElimination(m)
        for _ in range(3):
            t = gen.choose(rng, spec.vars, int(rng.integers(1, 3)))
            rest = [v for v in spec.vars if v not in t]
            c = gen.choose(rng, rest, int(rng.integers(0, 3)))
            ev = gen.random_evidence(rng, spec.doms, t + c, 2)
            ref, z = spec.posterior(t + c, ev)
            if ref is None or z < 1e-9:
                continue
            ctx.note(target=t, conditioning=c, evidence=ev)
            if c:
                p = inf.query(gen.as_target(rng, t), conditioning=gen.as_target(rng, c), evidence=ev)
            else:
                p = inf.query(gen.as_target(rng, t), evidence=ev)
            ctx.check(set(p.left_vars) == set(t), f"query of {t} given {c}: left side is {p.left_vars}")
            ctx.check(set(p.right_vars) == set(c), f"query of {t} given {c}: right side is {p.right_vars}")
            consistent(ctx, p, "query result")
            pc = ref.reduce(t, "sum")
            tot = table(p).reduce(t, "sum").aligned(pc.doms)
            ok = pc.a > 1e-9
            ctx.check(np.allclose(tot[ok], 1, atol=1e-7), f"query of {t} given {c} | {ev} does not sum to one", sums=tot.ravel().tolist())
            ctx.check((table(p).a >= -1e-12).all(), "negative probability")
            ctx.count("cond_query" if c else "query"), ctx.count("normalised")
            ctx.seen("query", len(t), len(c), len(ev), vtype)
    ctx.count("organic_calls", sum(mon.calls.values()))
    ctx.evaluations += mon.checked
    if mon.errors:
        raise Violation("operation inside a query: " + mon.errors[0], all=mon.errors)
