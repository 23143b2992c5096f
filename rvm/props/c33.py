"""C33 a data store is a table under every history of writes, copies and operations, in every backend."""
import itertools

import numpy as np

from .. import gen
from ..obs import doms_of
from ..ref import T, idx_of

ID = "C33"
CASES = {"quick": 1100, "thorough": 40000}
NEED = {"steps": 3256, "stores_read": 9000, "writes": 779, "copies": 350, "reductions": 500, "combinations": 500, "restrictions": 306, "defaults": 110, "pruned": 50, "pruned_written": 30,
        "mixed_refused": 120, "wrong_size_refused": 200, "backend:numpy": 150, "backend:numpy1d": 150, "backend:list": 150, "backend:treedict": 150, "factor_pruned": 70, "permuted_operands": 9, "pruned_several": 20, "scalars": 60}
RULE = ("programs of 4-10 steps over a set of live stores of one backend (created with default values, nested, flat, as arrays, or as trees in which branches are cut and variables come in any order): writing cells, copying, "
        "restricting, summing and maximising out, the four operations between stores over overlapping variables in other orders. After every step every live store (operands, copies, results) is read cell by cell, as list, dictionary, text, total and "
        "test for equality of all cells and compared with reference tables; stores of different backends and tables of the wrong size must be refused and leave everything unchanged. Trees with cut branches are also "
        "used as values of factors. Distinct = (backend, operation, sizes).")
ASSUMPTIONS = ["writes name one state for every variable of the store", "maximising out is not implemented by the flat-array backend (may refuse)", "operands list the states of common variables in one order, except where the backend accepts others"]


def make(rng, vt, doms, a):
    """the data a user passes for table a, in one of the accepted layouts"""
    style = ["nested", "flat", "array", "flatarray", "tree", "tree"][rng.integers(4 if vt != "treedict" else 6)]
    if (vt == "numpy" and style.startswith("flat")):
        style = "array"
    if not doms:
        return "scalar", float(a)
    if np.size(a) and rng.random() < .5 and (np.mod(a, 1) == 0).all():               # whole numbers: stored as integers, later written with others
        a = np.asarray(a).astype(int)
    if style == "nested":
        return style, np.asarray(a).tolist()
    if style == "flat":
        return style, np.ravel(a).tolist()
    if style == "array":
        return style, np.array(a)
    if style == "flatarray":
        return style, np.ravel(a).copy()
    return style, None


def cut_tree(rng, doms, left, cells):
    """a random tree over some of the variables; fills cells (dict of assignment -> value)"""
    def rec(fixed, rest):
        if not rest or rng.random() < .3:
            x = float(np.round(rng.random() * 2, 3)) if rng.random() < .85 else 0.0
            for c in itertools.product(*[doms[v] for v in rest]):
                cells[tuple(sorted({**fixed, **dict(zip(rest, c))}.items(), key=lambda t: t[0]))] = x
            return x
        v = rest[rng.integers(len(rest))]
        return dict(var=v, children={s: rec({**fixed, v: s}, [w for w in rest if w != v]) for s in doms[v]})
    return rec({}, left)


def tree_case(rng, doms):
    cells = {}
    while True:
        cells.clear()
        t = cut_tree(rng, doms, list(doms), cells)
        if isinstance(t, dict):
            break
    n = list(doms)
    a = np.array([cells[tuple(sorted(zip(n, c), key=lambda t: t[0]))] for c in itertools.product(*doms.values())]).reshape([len(d) for d in doms.values()])
    return t, a


def read(ctx, s, t, what):
    ctx.count("stores_read")
    doms = {v: list(d) for v, d in s.domain.items()}
    ctx.check(set(doms) == set(t.vars) and all(len(doms[v]) == len(t.doms[v]) and set(map(repr, doms[v])) == set(map(repr, t.doms[v])) for v in doms), f"{what}: domain {doms} instead of {t.doms}")
    ctx.check(list(s.variables) == list(doms) and list(s.cardinality) == [len(d) for d in doms.values()] and dict(s.cardinality_dict) == {v: len(d) for v, d in doms.items()}, f"{what}: variables {s.variables} and sizes {s.cardinality}")
    want = np.ravel(t.aligned(doms))
    grid = list(itertools.product(*doms.values()))
    with ctx.sut(f"{what}: reading the store"):
        vl, vd = s.values_list, s.values_dict
        tot, eq, txt, rp = s.sum_all(), s.all_equal(), s.values_str(), repr(s)
    f = [float(np.ravel(x)[0]) for x in vl]
    ctx.check(len(f) == len(want) and np.allclose(f, want, rtol=1e-9, atol=1e-12), f"{what}: values {f} instead of {want.tolist()}")
    ctx.check(list(vd) == [tuple(zip(doms, g)) for g in grid] and [float(np.ravel(x)[0]) for x in vd.values()] == f, f"{what}: dictionary of values {vd}")
    ctx.check(abs(float(np.ravel(tot)[0]) - sum(f)) < 1e-9, f"{what}: total {tot} instead of {sum(f)}")
    ctx.check(bool(eq) == all(x == f[0] for x in f), f"{what}: all_equal is {eq} for {f}")
    ctx.check(txt.split(",")[:4] == [str(x) for x in vl[:4]] and (len(vl) <= 4 or txt.split(",")[-1] == str(vl[-1]) and "..." in txt), f"{what}: text {txt} of {vl}")
    ctx.check(isinstance(rp, str) and all(str(v) in rp for v in doms), f"{what}: {rp}")


def case(ctx, rng, i):
    from bcause.factors.values import store_dict
    vt = gen.VTYPES[i % 4]
    cls = store_dict[vt]
    vs = gen.names(rng, int(rng.choice([1, 2, 2, 3, 4])))
    pool = {v: gen.states(rng, v, int(rng.integers(1, 4))) for v in vs}
    live = []                                                            # [name, store, reference]
    ctx.note(backend=vt, domain=pool, program=[])
    prog = ctx.desc["program"]
    ctx.count(f"backend:{vt}")

    def new():
        names = gen.choose(rng, vs, int(rng.choice([0 if live else 1, 1, 2, 2, 3])))
        names = [names[j] for j in rng.permutation(len(names))]
        d = {v: list(pool[v]) for v in names}
        shape = [len(x) for x in d.values()]
        ctx.count("scalars", int(not names))
        if rng.random() < .15 and (names or vt != "treedict"):
            prog.append(("default", names))
            with ctx.sut(f"{vt}: a store with default values over {names}"):
                s = cls(d) if rng.random() < .5 else cls(domain=d, data=None)
            ctx.count("defaults")
            return [f"#{len(live)}", s, T(d, np.zeros(shape))]
        a = np.round(rng.random(shape) * 2 - .5, 3)
        if rng.random() < .2:
            a = np.full(shape, float(a.flat[0]) if a.size else 0.0)
        if rng.random() < .2:
            a = np.round(a * 3)
            ctx.count("whole_numbers")
        style, data = make(rng, vt, d, a)
        if style == "tree":
            data, a = tree_case(rng, d)
            ctx.count("pruned")
        prog.append((style, names, np.asarray(a).tolist()))
        with ctx.sut(f"{vt}: a store over {names} from {style} data"):
            s = cls(d, data)
        e = [f"#{len(live)}", s, T(d, a), style == "tree"]
        if style not in ("tree", "scalar") and vt != "treedict" and names:
            bad = np.ones([k + (j == 0) for j, k in enumerate(shape)])
            ctx.rejects(f"{vt}: a table of {bad.shape} for sizes {shape}", cls, d, bad)
            ctx.count("wrong_size_refused")
        return e

    live.append(new())
    for _ in range(int(rng.integers(4, 11))):
        e = live[rng.integers(len(live))]
        s, t = e[1], e[2]
        op = ["new", "write", "write", "write", "copy", "restrict", "sum", "max", "combine", "combine", "mixed"][rng.integers(11)]
        what = f"{vt}: {op} of store {e[0]}"
        r = None
        if op == "new":
            r = new()
        elif op == "write":
            if not t.vars:
                continue
            at = {v: gen.pick_state(rng, t.doms[v]) for v in gen.choose(rng, t.vars, len(t.vars))}
            x = float(np.round(rng.random() * 5 - 1, 3))
            prog.append((op, e[0], at, x))
            ab = dict(at)
            with ctx.sut(what):
                s.set_value(x, at)
            ctx.check(at == ab, f"{what}: changed the assignment passed")
            t.a[tuple(idx_of(t.doms[v], at[v]) for v in t.vars)] = x
            ctx.count("writes"), ctx.count("pruned_written", int(len(e) > 3 and e[3]))
        elif op == "copy":
            prog.append((op, e[0]))
            with ctx.sut(what):
                r = [f"#{len(live)}", s.copy(), T(t.doms, t.a.copy()), *e[3:]]
            ctx.count("copies")
        elif op == "restrict":
            obs = {v: gen.pick_state(rng, t.doms[v]) for v in gen.choose(rng, t.vars)}
            prog.append((op, e[0], obs))
            with ctx.sut(what):
                r = [f"#{len(live)}", s.restrict(**obs), t.restrict(obs)]
            ctx.count("restrictions")
        elif op in ("sum", "max"):
            if op == "max" and vt == "numpy1d":
                continue
            rm = gen.choose(rng, t.vars)
            rm = [rm[j] for j in rng.permutation(len(rm))]
            prog.append((op, e[0], rm))
            with ctx.sut(f"{what} over {rm}"):
                q = s.marginalize(*rm) if op == "sum" else s.maxmarginalize(*rm)
            r = [f"#{len(live)}", q, t.reduce(rm, op)]
            ctx.count("reductions")
        elif op == "combine":
            o = live[rng.integers(len(live))]
            k = "*+-/"[rng.integers(4)]
            big = [x for x in live if len(set(x[2].vars) & set(t.vars)) > 1 and x is not e]
            if big and rng.random() < .6:
                o = big[rng.integers(len(big))]
            if len(e) > 3 and e[3] and rng.random() < .6:          # a tree with cut branches on the left of an operation that is not commutative
                k = "-/"[rng.integers(2)]
                ctx.count("pruned_left", int(o is not e))
            if k == "/" and ((o[2].a == 0).any()):
                k = "*"
            if t.a.size * o[2].a.size > 3000:
                continue
            prog.append((k, e[0], o[0]))
            with ctx.sut(f"{vt}: {e[0]} {k} {o[0]}"):
                q = dict(zip("*+-/", (s.multiply, s.addition, s.subtract, s.divide)))[k](o[1])
            r = [f"#{len(live)}", q, t.combine(o[2], k)]
            ctx.count("combinations"), ctx.count("permuted_operands", int([v for v in t.vars if v in o[2].vars] != [v for v in o[2].vars if v in t.vars]))
        else:
            ov = [x for x in gen.VTYPES if x != vt][rng.integers(3)]
            d = {v: list(pool[v]) for v in vs[:1]}
            other = store_dict[ov](d, np.ones([len(x) for x in d.values()]))
            ctx.rejects(f"{vt} combined with {ov}", (s.multiply, s.addition, s.subtract, s.divide)[rng.integers(4)], other)
            ctx.count("mixed_refused")
            prog.append((op, e[0], ov))
        ctx.count("steps")
        ctx.seen(vt, op, tuple(len(d) for d in t.doms.values()), bool(len(e) > 3 and e[3]))
        if r is not None:
            live.append(r) if len(live) < 7 else live.__setitem__(int(rng.integers(len(live))), r)
        for x in live:
            read(ctx, x[1], x[2], f"after {op} on {e[0]}, {vt} store {x[0]}")
    if i % 4 == 3:
        factor_tree(ctx, rng, vs, pool)
    ctx.sample(dict(backend=vt, program=[str(p)[:80] for p in prog]))


def factor_tree(ctx, rng, vs, pool):
    """trees with cut branches as values of factors"""
    from bcause.factors import MultinomialFactor
    from ..obs import expect
    d = {v: pool[v] for v in vs}
    tree, a = tree_case(rng, d)
    t = T(d, a)
    other = {v: pool[v] for v in gen.choose(rng, vs, kmin=1)}
    oa = rng.random([len(x) for x in other.values()]) + .1
    ctx.note(tree=tree)
    before = repr(tree)
    with ctx.sut("a factor with a tree of values"):
        f = MultinomialFactor(d, tree, vtype="treedict")
        g = MultinomialFactor(other, oa, vtype="treedict")
    expect(ctx, f, t, "factor with a tree of values")
    v = vs[rng.integers(len(vs))]
    obs = {v: gen.pick_state(rng, d[v])}
    rm = gen.choose(rng, vs, int(rng.integers(1, len(vs) + 1)))
    rm = [rm[j] for j in rng.permutation(len(rm))]
    ctx.count("pruned_several", int(len({len(d[x]) for x in rm}) > 1))
    for what, fn, want in [("f*g", lambda: f * g, t.combine(T(other, oa), "*")), ("g*f", lambda: g * f, t.combine(T(other, oa), "*")), ("f/g", lambda: f / g, t.combine(T(other, oa), "/")),
                           ("f+g", lambda: f + g, t.combine(T(other, oa), "+")), (f"sum over {v}", lambda: f ** v, t.reduce([v], "sum")), (f"maximum over {v}", lambda: f ^ v, t.reduce([v], "max")),
                           (f"sum over {rm}", lambda: f.marginalize(*rm), t.reduce(rm, "sum")), (f"maximum over {rm}", lambda: f.maxmarginalize(*rm), t.reduce(rm, "max")),
                           (f"restriction to {obs}", lambda: f.restrict(**obs), t.restrict(obs)), ("twice", lambda: 2 * f, T(d, 2 * a)), ("renamed", lambda: f.rename_vars({v: "Renamed"}), T({("Renamed" if w == v else w): x for w, x in d.items()}, a))]:
        with ctx.sut(f"tree with cut branches: {what}"):
            r = fn()
        expect(ctx, r, want, f"tree with cut branches: {what}")
    ctx.check(repr(tree) == before, "operations changed the tree of the caller")
    ctx.count("factor_pruned")
