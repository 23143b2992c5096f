"""Brute-force EM step (complete enumeration of the hidden variables of every row)."""
import math

import numpy as np

from .obs import table
from .ref import RefBN, T, idx_of


def refbn_of(model, spec: RefBN):
    """the network a real model denotes, in the layout of the spec."""
    cpt = {}
    for v in spec.vars:
        f = model.factors[v]
        f = f.to_multinomial() if hasattr(f, "to_multinomial") else f
        axes = spec.parents[v] + [v]
        cpt[v] = np.array(table(f).aligned({x: spec.doms[x] for x in axes}))
    return RefBN(spec.doms, spec.parents, cpt)


def expected_counts(bn: RefBN, rows, v):
    """expected counts of (parents, v) under bn, each row once; and whether every row is possible."""
    axes = bn.parents[v] + [v]
    out = np.zeros([len(bn.doms[x]) for x in axes])
    j = bn.joint()
    cache = {}
    for r in rows:
        key = tuple(sorted((k, repr(s)) for k, s in r.items()))
        if key not in cache:
            p = j.restrict(r)
            z = p.a.sum()
            if not z > 0:
                return None
            hid = [x for x in axes if x not in r]
            pm = p.reduce([x for x in p.vars if x not in hid], "sum")
            t = T({x: bn.doms[x] for x in axes}, np.zeros(out.shape))
            sl = tuple(slice(None) if x in hid else idx_of(bn.doms[x], r[x]) for x in axes)
            t.a[sl] = pm.aligned({x: bn.doms[x] for x in axes if x in hid}) / z
            cache[key] = t.a
        out += cache[key]
    return out


def step(bn: RefBN, rows, v):
    c = expected_counts(bn, rows, v)
    if c is None:
        return None, None
    tot = c.sum(axis=-1, keepdims=True)
    return np.where(tot > 0, c / np.where(tot > 0, tot, 1), 0), tot[..., 0]


def loglik(bn: RefBN, rows):
    j = bn.joint()
    cache, tot = {}, 0.0
    for r in rows:
        key = tuple(sorted((k, repr(s)) for k, s in r.items()))
        if key not in cache:
            z = j.restrict(r).a.sum()
            cache[key] = math.log(z) if z > 0 else -math.inf
        tot += cache[key]
    return tot
