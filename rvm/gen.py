"""Workload generators.  Every choice is drawn from the numpy Generator passed in; nothing here asserts anything.
Specs (ref.RefBN / ref.RefSCM) are generated first, without bcause; the *_obj functions then build the real objects from
a spec in one of the many ways the public API allows (variable order of a factor, value layout, storage backend ...)."""
from __future__ import annotations

import numpy as np

from .ref import RefBN, RefSCM, T

VTYPES = ["numpy", "numpy1d", "list", "treedict"]

NAME_POOLS = [
    ["A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L"],
    ["V1", "V10", "V2", "V11", "V100", "V3", "V20", "V12", "V110", "V21", "V4", "V13"],
    ["X", "XY", "Y", "YX", "XYZ", "Z", "YZ", "ZX", "ZY", "XZ", "ZYX", "YZX"],
    ["smoke", "lung", "tub", "asia", "either", "xray", "dysp", "bronc", "fever", "cough", "age", "sex"],
    ["zeta", "alpha", "mu", "beta", "kappa", "eta", "theta", "a", "b_c", "b", "c", "alpha2"],
    ["n9", "n8", "n7", "n6", "n5", "n4", "n3", "n2", "n1", "n0", "n10", "n11"],
    # words that mean something to the code around the model, and names that are not identifiers
    ["store", "size", "name", "values", "index", "count", "domain", "obs", "data", "var", "children", "level_0"],
    ["blood pressure", "x-1", "a.b", "\u00dcnal", "1st", "T cell", "x+y", "$", "a'b", "p%", "in", "lambda"],
]
SETS = True          # whether variables may be listed in a set: its order, and that of whatever is derived from it, differs between processes
PLAIN = False        # file formats whose grammar has no such names: only identifiers, and plain state labels


def pick_pool(rng):
    t = rng.random()
    return 6 if t < .08 else 7 if t < .16 and not PLAIN else int(rng.integers(6))


def names(rng, k, pool=None):
    p = NAME_POOLS[pick_pool(rng) if pool is None else pool]
    ix = rng.permutation(len(p))[:k]
    return [p[i] for i in ix]


ODD = ["not sick", "1/2", "a,b", "x=1", "", "\u00c4", "it's", "None", "None ", "A|B", ">=3", "(0)", "[a]"]


def states(rng, name, card, kinds=None):
    r = plain_states(rng, name, card, kinds)
    if PLAIN or rng.random() > .06:
        return r
    to = {int: np.int64, str: np.str_, bool: np.bool_, float: np.float64}.get(type(r[0]))      # as read from a column of data or an array
    return r if to is None else [to(x) for x in r]


def plain_states(rng, name, card, kinds=None):
    kinds = kinds or ["range", "range", "offset", "desc", "str", "common", "strnum", "bool", "float", "neg", "shufint"] + ["odd"] * (not PLAIN)
    k = kinds[rng.integers(len(kinds))]
    if k == "bool" and card != 2:
        k = "range"
    if k == "range":
        return list(range(card))
    if k == "offset":
        return list(range(3, 3 + card))
    if k == "desc":
        return list(range(card))[::-1]
    if k == "str":
        return [f"{name.lower()}{i + 1}" for i in range(card)]
    if k == "common":                       # the same text states in every variable
        return ["yes", "no", "maybe", "never", "always", "often", "rarely"][:card] if card <= 7 else [f"s{i}" for i in range(card)]
    if k == "odd":
        return [ODD[i] for i in rng.permutation(len(ODD))[:card]] if card <= len(ODD) else list(range(card))
    if k == "strnum":
        return [str(i) for i in rng.permutation(card)]
    if k == "bool":
        return [True, False] if rng.random() < .5 else [False, True]
    if k == "float":
        return [0.5 * i for i in range(card)]
    if k == "neg":
        return [int(x) for x in rng.permutation(np.arange(-2, 2 * card - 2, 2))]
    if k == "shufint":
        return [int(x) for x in rng.permutation(np.arange(0, card + 3))[:card]]
    if k == "tuple":
        return [(i // 2, i % 2) for i in range(card)]
    raise AssertionError(k)


def card(rng, lo=2, hi=4):
    c = int(rng.choice([2, 2, 2, 3, 3, 4, 5, 1], p=[.2, .2, .15, .15, .15, .09, .03, .03]))
    return max(lo, min(hi, c))


def domains(rng, vs, lo=2, hi=4, kinds=None):
    """states for every variable; now and then all variables share their states, or one has many."""
    t = rng.random()
    if t < .2 and kinds is None:
        kinds = [["range"], ["common"]][rng.integers(2)]
    d = {v: states(rng, v, card(rng, lo, hi), kinds) for v in vs}
    if t > .94 and len(vs):
        v = list(vs)[rng.integers(len(vs))]
        d[v] = states(rng, v, int(rng.integers(6, 13)), kinds)
    return d


def simplex(rng, n, kind=None):
    kind = kind or ["dir", "dir", "sparse", "unif", "skew", "det", "grid"][rng.integers(7)]
    if n == 1:
        return np.ones(1)
    if kind == "dir":
        p = rng.dirichlet(np.ones(n))
    elif kind == "sparse":
        p = rng.dirichlet(np.ones(n)) * (rng.random(n) < .6)
        if p.sum() == 0:
            p[rng.integers(n)] = 1.0
        p = p / p.sum()
    elif kind == "unif":
        p = np.ones(n) / n
    elif kind == "skew":
        p = rng.dirichlet(np.full(n, .2)) + 1e-12
        p = p / p.sum()
    elif kind == "det":
        p = np.zeros(n)
        p[rng.integers(n)] = 1.0
    elif kind == "grid":
        p = rng.integers(1, 5, n).astype(float)
        p = p / p.sum()
    elif kind == "pos":
        p = rng.dirichlet(np.full(n, 2.)) * .9 + .1 / n
    return p


def random_parents(rng, order, max_pa=3, dens=None):
    dens = rng.choice([.15, .35, .6, .9]) if dens is None else dens
    par = {}
    for i, v in enumerate(order):
        cand = [u for u in order[:i] if rng.random() < dens]
        cand = [cand[j] for j in rng.permutation(len(cand))][:max_pa]
        par[v] = cand
    return par


def twin_kinds(rng, kinds, force=None):
    """in some models all variables have the same states and equal tables wherever sizes allow: look-alikes that only their names tell apart."""
    if not (rng.random() < .2 if force is None else force):
        return kinds, False
    ok = [k for k in ("range", "common") if kinds is None or k in kinds or k == "common" and "str" in kinds]
    return ([ok[rng.integers(len(ok))]] if ok else kinds), True


def random_bn(rng, nmin=1, nmax=7, max_joint=3000, kinds=None, cpt_kinds=None, lo=2, hi=4, max_pa=3, dens=None, pool=None, twin=None):
    n = int(rng.integers(nmin, nmax + 1))
    odd = rng.random()                                    # now and then: many variables of two states, or one of many states
    if odd < .06 and nmax > 2:
        n = int(rng.integers(nmax, min(11, nmax + 5) + 1))
        hi = lo = max(lo, 2)
    order = names(rng, n, pool)
    kinds, twin = twin_kinds(rng, kinds, twin)
    doms = {v: states(rng, v, card(rng, lo, hi), kinds) for v in order}
    if .06 <= odd < .12 and hi > 2:
        v = order[rng.integers(n)]
        doms[v] = states(rng, v, int(rng.integers(6, 13)), [k for k in kinds if k != "bool"] or None if kinds else None)
    while np.prod([len(d) for d in doms.values()]) > max_joint:
        big = max(doms, key=lambda v: len(doms[v]))
        if len(doms[big]) <= 2:
            v = list(doms)[-1]
            del doms[v]
            order.remove(v)
        else:
            doms[big] = doms[big][:-1]
    par = random_parents(rng, order, max_pa, dens)
    cpt = {}
    for v in order:
        shp = [len(doms[p]) for p in par[v]]
        rows = int(np.prod(shp)) if shp else 1
        same = cpt_kinds[rng.integers(len(cpt_kinds))] if cpt_kinds else None
        kk = same if rng.random() < .5 else None
        cpt[v] = np.array([simplex(rng, len(doms[v]), kk if kk else (cpt_kinds[rng.integers(len(cpt_kinds))] if cpt_kinds else None))
                           for _ in range(rows)]).reshape(shp + [len(doms[v])])
        like = [w for w in cpt if w != v and cpt[w].shape == cpt[v].shape]
        if twin and like and rng.random() < .7:
            cpt[v] = np.array(cpt[like[rng.integers(len(like))]])
    return RefBN(doms, par, cpt)


def random_scm(rng, n_endo=(1, 4), n_exo=(1, 4), max_grid=600, exo_per_endo=None, kinds=None, p_kinds=None, lo=2, hi=3,
               exo_hi=6, allow_exo_free=True, allow_childless=True, pool=None, dens=None, max_endo_pa=3, twin=None):
    """exo_per_endo: 1 -> quasi-Markovian (exactly one exogenous parent each); None -> any number."""
    ne, nu = int(rng.integers(n_endo[0], n_endo[1] + 1)), int(rng.integers(n_exo[0], n_exo[1] + 1))
    pool = pick_pool(rng) if pool is None else pool
    nm = names(rng, ne + nu, pool)
    en, ex = nm[:ne], nm[ne:]
    kinds, twin = twin_kinds(rng, kinds, twin)
    endo = {v: states(rng, v, card(rng, lo, hi), kinds) for v in en}
    exo = {u: states(rng, u, int(rng.integers(2, exo_hi + 1)), kinds) for u in ex}
    odd = rng.random()
    wide = [k for k in kinds if k != "bool"] or None if kinds else None
    if odd < .06 and hi > 2:                                         # now and then: one variable of many states
        v = en[rng.integers(ne)]
        endo[v] = states(rng, v, int(rng.integers(5, 12)), wide)
    elif odd < .12:
        u = ex[rng.integers(nu)]
        exo[u] = states(rng, u, int(rng.integers(exo_hi, exo_hi + 8)), wide)
    while np.prod([len(d) for d in exo.values()]) > max_grid:
        big = max(exo, key=lambda u: len(exo[u]))
        exo[big] = exo[big][:-1]
    epar = random_parents(rng, en, max_endo_pa, dens)
    par = {}
    for v in en:
        if exo_per_endo == 1:
            us = [ex[rng.integers(nu)]]
        else:
            k = int(rng.choice([0, 1, 1, 1, 2, 3])) if allow_exo_free else int(rng.choice([1, 1, 1, 2]))
            us = [ex[i] for i in rng.permutation(nu)[:k]]
        par[v] = us + epar[v]
        par[v] = [par[v][i] for i in rng.permutation(len(par[v]))]
        if not par[v]:                       # endogenous variables must not be roots in the default reading of a DAG
            par[v] = [ex[rng.integers(nu)]]
    if not allow_childless:
        used = {p for v in en for p in par[v]}
        exo = {u: d for u, d in exo.items() if u in used}
    eq = {}
    for v in en:
        shp = [len(exo[p]) if p in exo else len(endo[p]) for p in par[v]]
        if rng.random() < .25 and len(shp):           # surjective-ish: varies along every axis
            grid = np.indices(shp).sum(axis=0)
            eq[v] = (grid + rng.integers(5)) % len(endo[v])
        else:
            eq[v] = rng.integers(0, len(endo[v]), shp)
        like = [w for w in eq if w != v and eq[w].shape == eq[v].shape and len(endo[w]) == len(endo[v])]
        if twin and like and rng.random() < .7:
            eq[v] = np.array(eq[like[rng.integers(len(like))]])
    pu = {u: simplex(rng, len(d), p_kinds[rng.integers(len(p_kinds))] if p_kinds else None) for u, d in exo.items()}
    for k, u in enumerate(exo):
        like = [w for w in list(exo)[:k] if len(exo[w]) == len(exo[u])]
        if twin and like and rng.random() < .7:
            pu[u] = np.array(pu[like[rng.integers(len(like))]])
    return RefSCM(exo, pu, endo, par, eq)


# ------------------------------------------------------------------------------------------------- real objects
def layout(rng, arr, axes):
    """(permuted axis names, permuted array)"""
    perm = rng.permutation(len(axes))
    return [axes[i] for i in perm], np.transpose(arr, perm)


def values_style(rng, a):
    k = rng.integers(3)
    a = np.array(a)
    if a.size and a.dtype == float and rng.random() < .5 and (np.mod(a, 1) == 0).all() and (abs(a) < 1e9).all():      # whole numbers: also as integers or logical values
        a = a.astype(bool if rng.random() < .4 and ((a == 0) | (a == 1)).all() else int)
    if k == 0:
        return np.array(a)
    if k == 1:
        return np.array(a).tolist()
    return np.array(a).ravel().tolist()


def factor_obj(rng, doms, axes, arr, left=None, right=None, vtype=None, permute=True, shuffle_states=False):
    """MultinomialFactor over axes with the given array, built in a random admissible way."""
    from bcause.factors import MultinomialFactor
    if permute:
        axes, arr = layout(rng, arr, axes)
    d = {}
    for ax, v in enumerate(axes):
        st = list(doms[v])
        if shuffle_states:
            p = rng.permutation(len(st))
            st = [st[i] for i in p]
            arr = np.take(arr, p, axis=ax)
        d[v] = st
    kw = {}
    if left is not None:
        right = [v for v in axes if v not in left]
        right = [right[i] for i in rng.permutation(len(right))]
        style = rng.integers(3)
        if style == 0:
            kw["left_vars"] = list(left)
        elif style == 1:
            kw["right_vars"] = right
        else:
            kw["left_vars"], kw["right_vars"] = list(left), right
    if vtype is not None:
        kw["vtype"] = vtype
    vals = values_style(rng, arr) if len(axes) else [float(arr)]
    return MultinomialFactor(d, vals, **kw)


def eq_factor_obj(rng, spec: RefSCM, v, vtype=None, permute=True):
    """DeterministicFactor for the equation of v."""
    from bcause.factors import DeterministicFactor
    doms = spec.doms
    par, a = list(spec.parents[v]), spec.eq[v]
    if permute:
        perm = rng.permutation(len(par))
        par, a = [par[i] for i in perm], np.transpose(a, perm)
    axes = list(par)
    axes.insert(int(rng.integers(len(axes) + 1)) if permute else len(axes), v)
    flat = [spec.endo[v][i] for i in a.ravel()]
    if rng.random() < .5 and len(par) > 1:
        def nest(shape, off=0):
            if len(shape) == 1:
                return flat[off:off + shape[0]]
            step = int(np.prod(shape[1:]))
            return [nest(shape[1:], off + i * step) for i in range(shape[0])]
        vals = nest(list(a.shape))
    else:
        vals = flat
    kw = {"left_vars": [v]} if rng.random() < .5 else {"right_vars": [p for p in axes if p != v]}
    if vtype is not None:
        kw["vtype"] = vtype
    return DeterministicFactor({x: list(doms[x]) for x in axes}, vals, **kw)


def dag_obj(rng, all_vars, edges, shuffle=True):
    import networkx as nx
    g = nx.DiGraph()
    if shuffle:
        all_vars = [all_vars[i] for i in rng.permutation(len(all_vars))]
        edges = [edges[i] for i in rng.permutation(len(edges))]
    g.add_nodes_from(all_vars)
    g.add_edges_from(edges)
    return g


def bn_obj(rng, spec: RefBN, vtype=None, permute=True, shuffle_states=False, cls=None):
    from bcause.models import BayesianNetwork
    g = dag_obj(rng, spec.vars, spec.edges)
    fs = {v: factor_obj(rng, spec.doms, spec.parents[v] + [v], spec.cpt[v], left=[v], vtype=vtype, permute=permute,
                        shuffle_states=shuffle_states) for v in spec.vars}
    vs = list(fs)
    vs = [vs[i] for i in rng.permutation(len(vs))]
    fs = {v: fs[v] for v in vs} if rng.random() < .5 else [fs[v] for v in vs]
    return (cls or BayesianNetwork)(g, fs)


def scm_obj(rng, spec: RefSCM, vtype=None, permute=True, deterministic=None, cast=True, explicit_endo=None, shuffle=True):
    from bcause.models.cmodel import StructuralCausalModel
    g = dag_obj(rng, list(spec.doms), spec.edges, shuffle)
    bn = spec.bn()
    det = (rng.random() < .5) if deterministic is None else deterministic
    fs = {}
    for u in spec.exo:
        fs[u] = factor_obj(rng, spec.doms, [u], spec.pu[u], left=[u], vtype=vtype, permute=permute)
    for v in spec.endo:
        if det:
            fs[v] = eq_factor_obj(rng, spec, v, vtype, permute)
        else:
            fs[v] = factor_obj(rng, spec.doms, spec.parents[v] + [v], bn.cpt[v], left=[v], vtype=vtype, permute=permute)
    vs = list(fs)
    if shuffle:
        vs = [vs[i] for i in rng.permutation(len(vs))]
    fs = {v: fs[v] for v in vs} if rng.random() < .5 else [fs[v] for v in vs]
    kw = {}
    if explicit_endo or (explicit_endo is None and rng.random() < .3):
        e = [v for v in g.nodes if v in spec.endo]
        kw["endogenous"] = [list, list, tuple, dict.fromkeys, iter, set if SETS else list][rng.integers(6)](e)
    return StructuralCausalModel(g, fs, cast_multinomial=cast, **kw)


def endo_rows(rng, spec: RefSCM, n):
    """n complete endogenous observations drawn from the spec (independent of bcause's sampler)."""
    w = spec.w / spec.w.sum()
    ks = rng.choice(len(w), size=n, p=w)
    val = spec.world()
    return [{v: spec.endo[v][int(val[v][k])] for v in spec.endo} for k in ks]


def long_rows(rng, rows):
    """more than a thousand rows whose end differs from their beginning (long data is never drawn by repetition alone)."""
    first = [r for r in rows if r == rows[0]]
    tail = [r for r in rows if r != rows[0]] or first
    return (first * 1300)[:int(rng.integers(1000, 1300))] + (tail * 300)[:int(rng.integers(1, 300))]


# ------------------------------------------------------------------------------------------------------- queries
def choose(rng, xs, k=None, kmin=0):
    xs = list(xs)
    k = int(rng.integers(kmin, len(xs) + 1)) if k is None else min(k, len(xs))
    return [xs[i] for i in rng.permutation(len(xs))[:k]]


def pick_state(rng, dom):
    return dom[int(rng.integers(len(dom)))]


def random_evidence(rng, doms, avoid=(), kmax=3):
    vs = [v for v in doms if v not in avoid]
    return {v: pick_state(rng, doms[v]) for v in choose(rng, vs, int(rng.integers(0, kmax + 1)))}


def as_target(rng, t):
    """a list of target names in one of the forms the API accepts."""
    if len(t) == 1 and rng.random() < .6:
        return t[0]
    k = rng.integers(4)
    return list(t) if k < 2 else tuple(t) if k == 2 else set(t)


def big_bn(rng, n, card_hi=3, max_pa=2):
    """a sparse network with more variables than brute force over the joint allows cheaply (chain/tree-like)."""
    order = [f"N{i}" for i in rng.permutation(n)]
    doms = {v: states(rng, v, int(rng.integers(2, card_hi + 1))) for v in order}
    par = {}
    for i, v in enumerate(order):
        k = min(i, int(rng.integers(0, max_pa + 1)))
        cand = order[max(0, i - 4):i]
        par[v] = [cand[j] for j in rng.permutation(len(cand))[:k]]
    cpt = {}
    for v in order:
        shp = [len(doms[p]) for p in par[v]]
        rows = int(np.prod(shp)) if shp else 1
        cpt[v] = np.array([simplex(rng, len(doms[v]), "pos") for _ in range(rows)]).reshape(shp + [len(doms[v])])
    return RefBN(doms, par, cpt)


def long_bn(rng, lo=12, hi=17):
    """a chain of binary variables with strong ties, pointing outwards from one of them: what is far away still matters. Also its two ends."""
    n = int(rng.integers(lo, hi))
    nm = [str(x) for x in rng.permutation([f"L{k}" for k in range(n)])]
    root = int(rng.choice([0, n - 1, rng.integers(n)]))
    doms = {nm[k]: states(rng, nm[k], 2) for k in sorted(range(n), key=lambda k: abs(k - root))}
    par = {nm[k]: [] if k == root else [nm[k - 1] if k > root else nm[k + 1]] for k in range(n)}
    cpt = {}
    for v in nm:
        e = rng.uniform(.02, .08, 2)
        cpt[v] = np.array([[1 - e[0], e[0]], [e[1], 1 - e[1]]][:: rng.choice([-1, 1])]) if par[v] else simplex(rng, 2, "pos")
    return RefBN(doms, par, cpt), nm[0], nm[-1]


def scm_point(rng, scm, worlds):
    """values of all variables in each world for one exogenous configuration of positive probability."""
    k = int(rng.choice(len(scm.w), p=scm.w / scm.w.sum()))
    out = []
    for d in worlds:
        val = scm.world(d)
        out.append({v: scm.doms[v][int(val[v][k])] for v in scm.doms})
    return out


def bn_point(rng, spec):
    """an assignment of positive probability."""
    out = {}
    for v in spec.vars:
        row = spec.cpt[v][tuple(spec.doms[p].index(out[p]) for p in spec.parents[v])]
        out[v] = spec.doms[v][int(rng.choice(len(row), p=row / row.sum()))]
    return out


def column_types(rng, df, ctx=None, p=.3):
    """the same data with columns of other pandas types (categories, text, nullable, object); now and then."""
    import pandas as pd
    if rng.random() > p:
        return df
    df = df.copy()
    for v in list(df.columns):
        if list(df.columns).count(v) > 1 or not len(df):
            continue
        kinds = {type(x) for x in df[v].tolist() if not (x is None or x is pd.NA or isinstance(x, float) and x != x)}
        gaps = bool(df[v].isna().any())
        opts = ["category", "object"]
        if kinds == {str}:
            opts += ["string", "category"]
        elif kinds == {int} and not gaps:
            opts += ["Int64", "int32", "int8"]
        elif kinds == {float} and not gaps:
            opts += ["float32", "Float64"]
        elif kinds == {bool} and not gaps:
            opts += ["boolean"]
        o = opts[rng.integers(len(opts))]
        if rng.random() < .6:
            df[v] = df[v].astype(o)
            if ctx is not None:
                ctx.count(f"column_{o}")
    if ctx is not None:
        ctx.count("column_types")
    return df


def other_columns(rng, df, ctx=None, p=.15):
    """the same data with columns that are not about the model; now and then."""
    if rng.random() > p:
        return df
    df = df.copy()
    n = len(df)
    for name in ["row id", "weight", "_note"][:int(rng.integers(1, 4))]:
        vals = [list(range(n)), [f"r{k}" for k in range(n)], [float("nan") if k % 3 else 1.5 for k in range(n)], [None] * n][rng.integers(4)]
        df.insert(int(rng.integers(0, len(df.columns) + 1)), name, vals)
    if ctx is not None:
        ctx.count("other_columns")
    return df
