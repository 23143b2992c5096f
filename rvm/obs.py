"""Observers: read real bcause objects through their public interface into reference tables, compare, and snapshot."""
from __future__ import annotations

import itertools

import numpy as np

from .core import Violation
from .ref import T, idx_of

TOL = 1e-9


def doms_of(f):
    return {v: list(d) for v, d in f.domain.items()}


def table(f):
    """The function a multinomial factor denotes, read point by point."""
    d = doms_of(f)
    names = list(d)
    vals = [f.get_value(**dict(zip(names, c))) for c in itertools.product(*d.values())]
    return T(d, np.array([float(np.ravel(x)[0]) for x in vals]))


def eq_table(f):
    """{parent assignment (tuple of sorted items): state} of a deterministic factor."""
    d = {v: list(s) for v, s in f.right_domain.items()}
    names = list(d)
    out = {}
    for c in itertools.product(*d.values()):
        out[c] = f.get_value(**dict(zip(names, c)))
    return names, out


def same_states(a, b):
    return len(a) == len(b) and all(any(x == y for y in b) for x in a)


def diff_tables(got: T, want: T, tol=TOL, rtol=1e-9):
    """None or a description of the first difference between two tables (by variable name and state)."""
    if set(got.vars) != set(want.vars):
        return f"variables {sorted(got.vars)} instead of {sorted(want.vars)}"
    for v in want.vars:
        if not same_states(got.doms[v], want.doms[v]):
            return f"states of {v}: {got.doms[v]} instead of {want.doms[v]}"
    x, y = got.aligned(want.doms), want.a
    bad = ~(np.isclose(x, y, rtol=rtol, atol=tol) | ((x == y)))
    if bad.any():
        k = tuple(int(i[0]) for i in np.where(bad)) if bad.ndim else ()
        at = {v: want.doms[v][k[i]] for i, v in enumerate(want.vars)}
        return f"value at {at}: {float(x[k])!r} instead of {float(y[k])!r}"
    return None


def expect(ctx, f, want: T, what, tol=TOL, rtol=1e-9, **detail):
    """The factor returned by the code under test must denote the reference table."""
    try:
        got = f if isinstance(f, T) else table(f)
    except Exception as e:
        raise Violation(f"{what}: result cannot be read: {type(e).__name__}: {e}", result=repr(f)[:500], **detail)
    d = diff_tables(got, want, tol, rtol)
    ctx.check(d is None, f"{what}: {d}", got=repr(got)[:1500], want=repr(want)[:1500], **detail)


def expect_sides(ctx, f, left, right, what):
    ctx.check(set(f.left_vars) == set(left) and set(f.right_vars) == set(right) and set(f.variables) == set(left) | set(right),
              f"{what}: sides are {list(f.left_vars)} | {list(f.right_vars)}, expected {sorted(left)} | {sorted(right)}")


# ------------------------------------------------------------------------------------------------------- snapshots
def freeze(x):
    if isinstance(x, dict):
        return ("d", tuple((repr(k), freeze(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return ("l", type(x).__name__, tuple(freeze(v) for v in x))
    if isinstance(x, (set, frozenset)):
        return ("s", tuple(sorted(map(repr, x))))
    if isinstance(x, np.ndarray):
        return ("a", x.shape, x.dtype.str, tuple(map(repr, x.ravel().tolist())))
    return ("v", type(x).__name__, repr(x))


def snap_factor(f):
    if f is None:
        return None
    out = [type(f).__name__, getattr(f, "vtype", None), tuple((v, tuple(map(repr, d))) for v, d in f.domain.items()),
           tuple(f.left_vars), tuple(sorted(f.right_vars)), tuple(f.variables)]
    out.append(tuple(map(repr, [np.ravel(x)[0] if np.ndim(x) == 0 or np.size(x) == 1 else x for x in f.values_list])))
    return tuple(out)


def snap_model(m):
    out = [type(m).__name__, tuple(m.graph.nodes), tuple(m.graph.edges), tuple(m.variables)]
    out.append(tuple((v, snap_factor(m.factors[v])) for v in m.factors))
    out.append(tuple((v, None if d is None else tuple(map(repr, d))) for v, d in m.domains.items()))
    if hasattr(m, "endogenous"):
        out.append(tuple(m.endogenous))
        out.append(tuple(m.exogenous))
    return tuple(out)


def snap_df(df):
    return (tuple(map(repr, df.columns)), tuple(map(str, df.dtypes)), tuple(map(repr, df.index)),
            tuple(tuple("nan" if type(x).__name__ == "NAType" or x != x else (type(x).__name__, repr(x)) for x in row) for row in df.itertuples(index=False, name=None)))


def snap_graph(g):
    return (tuple(g.nodes), tuple(g.edges), tuple((n, tuple(sorted(map(str, d.items())))) for n, d in g.nodes(data=True)))
