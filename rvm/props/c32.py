"""C32 enumeration, index arithmetic and the small array helpers agree with their definitions."""
import itertools
import math

import networkx as nx
import numpy as np

from .. import gen

ID = "C32"
CASES = {"quick": 1600, "thorough": 60000}
NEED = {"spaces": 720, "strides": 720, "index_sets": 1500, "partial_index_sets": 600, "coordinates": 1000, "subdomains": 720, "parent_domains": 400, "normalised": 500, "powersets": 300, "set_values": 500,
        "lists": 500, "shape_orders": 400, "created_domains": 500, "truth": 300, "truth_refused": 100, "large": 60, "factor_layout": 500, "trees": 300, "empty_domain": 18, "single_states": 200}
RULE = ("random domains (0-6 variables, 1-5 states of any type): the state space, assignments and their numeric versions must be the row-major product of the states in the order of the domain; strides and the "
        "indices consistent with a partial assignment must be those of that enumeration (recounted one by one), as must be the flat list, dictionary and array of a factor; restricting, numbering, selecting and creating domains, domains of a "
        "variable and its parents, normalisation, power sets, nested assignment, list conversion, column-major reordering, trees and identification of true/false states are compared "
        "with direct definitions. Arguments stay unchanged. Distinct = (helper, sizes).")
ASSUMPTIONS = ["domains list distinct states", "normalisation of arrays whose sums are positive"]


def case(ctx, rng, i):
    from bcause.factors import MultinomialFactor
    from bcause.util import arrayutils as au
    from bcause.util import domainutils as du
    from bcause.util.treesutil import build_default_tree
    k = 0 if i % 40 == 0 else int(rng.integers(1, 7))
    vs = gen.names(rng, k)
    dom = {v: gen.states(rng, v, int(rng.integers(1, 6 if k < 4 else 3))) for v in vs}
    ctx.note(dom=dom)
    ctx.count("empty_domain", int(k == 0)), ctx.count("single_states", int(any(len(d) == 1 for d in dom.values())))
    before = repr(dom)
    shape = [len(d) for d in dom.values()]
    N = int(np.prod(shape)) if shape else 1
    grid = [[]]
    for d in dom.values():
        grid = [g + [s] for g in grid for s in d]
    grid = [tuple(g) for g in grid]
    with ctx.sut("state space"):
        ss, aspace, ns, na, num = du.state_space(dom), du.assingment_space(dom), du.numeric_state_space(dom), du.numeric_assignment_space(dom), du.to_numeric_domains(dom)
        st, sd = du.steps(dom), du.steps_dict(dom)
    ctx.check([tuple(x) for x in ss] == grid, f"state space {ss[:10]} instead of {grid[:10]}")
    ctx.check([list(a.items()) for a in aspace] == [list(zip(vs, g)) for g in grid], f"assignments {aspace[:5]}")
    ctx.check(num == {v: list(range(len(d))) for v, d in dom.items()} and list(num) == vs, f"numeric domain {num}")
    ctx.check([tuple(x) for x in ns] == list(np.ndindex(*shape)) and [list(a.values()) for a in na] == [list(x) for x in np.ndindex(*shape)] and all(list(a) == vs for a in na), "numeric state space")
    want = [int(np.prod(shape[j + 1:])) for j in range(k)]
    ctx.check(list(st) == want and sd == dict(zip(vs, want)) and list(sd) == vs, f"strides {st} instead of {want}")
    ctx.count("spaces"), ctx.count("strides")
    ctx.seen("space", tuple(shape))
    for _ in range(2):
        obs = {v: gen.pick_state(rng, dom[v]) for v in gen.choose(rng, vs)}
        if rng.random() < .3:
            obs["noSuchVariable"] = 1
        ob = repr(obs)
        with ctx.sut(f"indices of {obs}"):
            il = du.index_list(dom, obs) if obs or rng.random() < .5 else du.index_list(dom)
            it = list(du.index_iterator(dom, obs))
        w = [j for j, g in enumerate(grid) if all(v not in obs or g[p] == obs[v] for p, v in enumerate(vs))]
        ctx.check([int(x) for x in il] == w and [int(x) for x in it] == w, f"indices {il} of {obs} instead of {w}")
        ctx.count("index_sets"), ctx.count("partial_index_sets", int(0 < len([v for v in obs if v in dom]) < k))
        with ctx.sut(f"coordinates of {obs}"):
            co = du.values_to_coord(dom, obs)
        ctx.check(co == {v: dom[v].index(s) for v, s in obs.items() if v in dom}, f"coordinates {co} of {obs}")
        inside = {v: s for v, s in obs.items() if v in dom}
        with ctx.sut(f"restriction of the domain to {inside}"):
            rd = du.restrict_domain(dom, inside)
        ctx.check(rd == {v: [inside[v]] if v in inside else dom[v] for v in vs} and list(rd) == vs, f"restricted domain {rd}")
        ctx.check(repr(obs) == ob, "the observation of the caller changed")
        ctx.count("coordinates")
        ctx.seen("index", tuple(shape), len(obs))
    if rng.random() < .1:                                 # more configurations than machine integers can count
        big = {f"B{j}": gen.states(rng, f"B{j}", int(rng.integers(1, 5))) for j in range(int(rng.integers(50, 90)))}
        one = {v: gen.pick_state(rng, d) for v, d in big.items()}
        w, acc = {}, 1
        for v in list(big)[::-1]:
            w[v], acc = acc, acc * len(big[v])
        with ctx.sut("strides and index in a large domain"):
            st, ix = du.steps_dict(big), du.index_list(big, one)
        ctx.check({v: int(x) for v, x in st.items()} == w, f"strides {st} of a domain with {acc} configurations")
        ctx.check([int(x) for x in ix] == [sum(w[v] * big[v].index(one[v]) for v in big)], f"index {ix} in a domain with {acc} configurations")
        ctx.count("large")
    sub = gen.choose(rng, vs)
    with ctx.sut(f"subdomain of {sub}"):
        x = du.subdomain(dom, *sub)
    ctx.check(x == {v: dom[v] for v in sub} and list(x) == sub, f"subdomain {x} of {sub}")
    ctx.count("subdomains")
    if k:
        g = nx.DiGraph()
        g.add_nodes_from(vs)
        par = gen.random_parents(rng, vs)
        g.add_edges_from([(p, v) for v in vs for p in par[v]])
        v = gen.pick_state(rng, vs)
        with ctx.sut(f"domain of {v} and its parents"):
            x = du.var_parents_domain(dom, g, v)
        ctx.check(x == {y: dom[y] for y in [*par[v], v]} and list(x)[-1] == v, f"domain of {v} and parents {par[v]}: {x}")
        ctx.count("parent_domains")
    ctx.check(repr(dom) == before, "the domain of the caller changed")
    # a factor lays its values out in that order
    if k and N <= 200:
        vt = gen.VTYPES[rng.integers(4)]
        vals = [float(x) for x in rng.permutation(N)]
        with ctx.sut(f"factor stored as {vt}"):
            f = MultinomialFactor(dom, list(vals), vtype=vt)
            vl = [float(np.ravel(x)[0]) for x in f.values_list]
            vd = f.values_dict
            cell = [float(np.ravel(f.get_value(**a))[0]) for a in aspace]
            tr = build_default_tree(dom, list(vals))
        ctx.check(vl == vals and cell == vals, f"{vt}: values {vl[:10]}, cells {cell[:10]} instead of {vals[:10]}")
        ctx.check([(tuple(kk), float(np.ravel(x)[0])) for kk, x in vd.items()] == [(tuple(zip(vs, gg)), x) for gg, x in zip(grid, vals)], f"{vt}: dictionary of values {list(vd.items())[:4]}")
        perm = gen.choose(rng, vs, k)
        with ctx.sut(f"array of values in the order {perm}"):
            arr = f.values_array(list(perm))
        w = np.transpose(np.reshape(vals, shape), [vs.index(v) for v in perm])
        ctx.check(np.shape(arr) == w.shape and np.array_equal(np.array(arr, dtype=float).reshape(w.shape), w), f"{vt}: array in the order {perm}")
        for gg, x in zip(grid, vals):
            t = tr
            for _ in range(k):
                t = t["children"][gg[vs.index(t["var"])]]
            ctx.check(float(np.ravel(t)[0]) == x, f"tree value {t} at {gg} instead of {x}")
        ctx.count("factor_layout"), ctx.count("trees")
    # creating domains
    sizes = {v: int(rng.integers(1, 5)) for v in gen.names(rng, int(rng.integers(1, 4)))}
    first, sv = int(rng.integers(0, 4)), rng.random() < .5
    with ctx.sut("creating a domain"):
        cd = du.create_domain(dict(sizes), first=first, str_values=sv)
        c1 = du.create_domain(dict(sizes))
    ctx.check(cd == {v: [f"{v.lower()}{j}" if sv else j for j in range(first, first + n)] for v, n in sizes.items()} and list(cd) == list(sizes), f"created domain {cd}")
    ctx.check(c1 == {v: [f"{v.lower()}{j}" for j in range(1, 1 + n)] for v, n in sizes.items()}, f"created domain {c1}")
    ctx.count("created_domains")
    # arrays
    a = rng.random([int(x) for x in rng.integers(1, 4, int(rng.integers(1, 4)))]) + .01
    ax = gen.choose(rng, list(range(a.ndim)), kmin=1)
    a0 = a.copy()
    with ctx.sut(f"normalising over {ax}"):
        na_ = au.normalize_array(a if rng.random() < .5 else a.tolist(), list(ax))
    s = np.asarray(na_).sum(axis=tuple(ax), keepdims=True)
    ctx.check(np.allclose(s, 1) and np.allclose(na_ * a.sum(axis=tuple(ax), keepdims=True), a) and np.array_equal(a, a0), f"normalised {a.tolist()} over {ax}: {np.asarray(na_).tolist()}")
    ctx.count("normalised"), ctx.seen("normalise", a.shape, tuple(sorted(ax)))
    items = gen.names(rng, int(rng.integers(0, 6)))
    with ctx.sut("power set"):
        ps = au.powerset(items if rng.random() < .5 else iter(items))
        ln = au.len_iterable(iter(items))
    ctx.check(len(ps) == 2 ** len(items) and {frozenset(x) for x in ps} == {frozenset(x) for r in range(len(items) + 1) for x in itertools.combinations(items, r)}
              and all(len(x) == len(set(x)) for x in ps) and ln == len(items), f"power set of {items}: {ps}")
    ctx.count("powersets")
    b = np.zeros(a.shape)
    ix = [int(rng.integers(n)) for n in a.shape]
    with ctx.sut(f"setting the cell {ix}"):
        au.set_value(3.5, b, ix)
        nested = np.zeros(a.shape).tolist()
        au.set_value(3.5, nested, ix)
    w = np.zeros(a.shape)
    w[tuple(ix)] = 3.5
    ctx.check(np.array_equal(b, w) and np.array_equal(nested, w), f"setting the cell {ix}: {b.tolist()}, {nested}")
    ctx.count("set_values")
    for x, w in (("abc", ["abc"]), (("a", "b"), ["a", "b"]), ({"q": 1}.keys(), ["q"]), (["x"], ["x"]), ({"z"}, ["z"]), ([], [])):
        with ctx.sut(f"list of {x}"):
            ctx.check(au.as_lists(x) == w, f"list of {x!r}: {au.as_lists(x)}")
    with ctx.sut("lists"):
        p, q = au.as_lists("n", ("m", "n"))
    ctx.check(p == ["n"] and q == ["m", "n"], f"lists {p}, {q}")
    mine = ["u"]
    with ctx.sut("lists"):
        copy = au.as_lists(mine)
        copy.append("v")
    ctx.check(mine == ["u"], "the list of the caller is shared")
    ctx.count("lists")
    sh = tuple(int(x) for x in rng.integers(1, 4, int(rng.integers(1, 4))))
    vals = [float(x) for x in rng.permutation(int(np.prod(sh)))]
    with ctx.sut(f"column-major values of shape {sh}"):
        r = au.change_shape_order(list(vals), sh)
    w = [vals[sum(c * int(np.prod(sh[:j])) for j, c in enumerate(ix))] for ix in np.ndindex(*sh)]
    ctx.check(list(np.ravel(r)) == w, f"column-major {vals} of shape {sh}: {list(np.ravel(r))} instead of {w}")
    ctx.count("shape_orders")
    # true and false
    nm = gen.names(rng, 1)[0]
    t, d = [(True, [True, False]), (1, [0, 1]), (1.0, [1.0, 0.0]), (f"{nm.lower()}1", [f"{nm.lower()}1", f"{nm.lower()}2"]), (f"{nm.lower()}1", [f"{nm.lower()}0", f"{nm.lower()}1"]),
            (f"{nm.upper()}1", [f"{nm.upper()}0", f"{nm.upper()}1"])][rng.integers(6)]
    d = d if rng.random() < .5 else d[::-1]
    with ctx.sut(f"true and false of {d}"):
        tf = du.identify_true_false(nm, list(d))
    ctx.check(tuple(tf) == (t, next(x for x in d if x != t)), f"true and false of {d}: {tf}")
    ctx.count("truth")
    if i % 4 == 0:
        for bad in (["a", "b", "c"], [0, 1, 2], ["yes", "no"], [0, "a"], [2, 3], [0, 5], [0], [f"{nm.lower()}2", f"{nm.lower()}0"], [f"{nm.lower()}0", f"{nm.lower()}2"]):
            ctx.rejects(f"true and false of {bad}", lambda: du.identify_true_false(nm, bad))
        ctx.count("truth_refused")
    if i < 2:
        ctx.sample({"domain": dom, "strides": st, "states": len(ss)})
