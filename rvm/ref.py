"""Reference models: brute-force semantics of discrete factors, Bayesian networks and structural causal models.

Nothing in this file imports or calls bcause.  Everything is by explicit enumeration over numpy arrays whose axes are
tied to variable NAMES and state VALUES, so the oracle does not depend on any ordering convention of the code under test.
"""
from __future__ import annotations

import itertools
import math

import numpy as np


def idx_of(states, s):
    """Position of a state, by equality (never by array broadcasting)."""
    for i, x in enumerate(states):
        if x is s or (type(x) == type(s) and x == s):
            return i
    for i, x in enumerate(states):
        if x == s:
            return i
    raise KeyError(f"state {s!r} not in {states!r}")


def assignments(doms: dict):
    names = list(doms)
    for combo in itertools.product(*[doms[v] for v in names]):
        yield dict(zip(names, combo))


class T:
    """A table over named variables."""

    def __init__(self, doms: dict, a):
        self.doms = {v: list(d) for v, d in doms.items()}
        self.a = np.array(a, dtype=float).reshape([len(d) for d in self.doms.values()])

    @property
    def vars(self):
        return list(self.doms)

    def at(self, obs):
        return float(self.a[tuple(idx_of(self.doms[v], obs[v]) for v in self.doms)])

    def aligned(self, doms):
        """Array broadcast to exactly the (variable, state) layout of doms."""
        a = self.a
        for ax, v in enumerate(self.doms):
            a = np.take(a, [idx_of(self.doms[v], s) for s in doms[v]], axis=ax)
        names = list(doms)
        mine = list(self.doms)
        a = np.transpose(a, sorted(range(len(mine)), key=lambda i: names.index(mine[i])))
        shape = [len(doms[v]) if v in self.doms else 1 for v in names]
        return np.broadcast_to(a.reshape(shape), [len(doms[v]) for v in names])

    def combine(self, other, op):
        doms = dict(self.doms)
        for v, d in other.doms.items():
            doms.setdefault(v, d)
        x, y = self.aligned(doms), other.aligned(doms)
        if op == "*":
            r = x * y
        elif op == "+":
            r = x + y
        elif op == "-":
            r = x - y
        elif op == "/":
            with np.errstate(all="ignore"):
                r = np.where((x == 0) & (y == 0), 0.0, x / np.where((x == 0) & (y == 0), 1.0, y))
        else:
            raise AssertionError(op)
        return T(doms, r)

    def reduce(self, names, how):
        axes = tuple(i for i, v in enumerate(self.doms) if v in names)
        a = self.a.sum(axis=axes) if how == "sum" else self.a.max(axis=axes) if axes else self.a
        return T({v: d for v, d in self.doms.items() if v not in names}, a)

    def restrict(self, obs):
        a, doms = self.a, {}
        ax = 0
        for v, d in self.doms.items():
            if v not in obs:
                doms[v] = d
                ax += 1
            elif isinstance(obs[v], list):
                keep = [s for s in d if any(s == o for o in obs[v])]
                a = np.take(a, [idx_of(d, s) for s in keep], axis=ax)
                if len(obs[v]) == 1:
                    a = np.take(a, 0, axis=ax)
                else:
                    doms[v] = keep
                    ax += 1
            else:
                a = np.take(a, idx_of(d, obs[v]), axis=ax)
        return T(doms, a)

    def __repr__(self):
        return f"T({self.doms}, {self.a.ravel().tolist()})"


# ------------------------------------------------------------------------------------------------ Bayesian networks
class RefBN:
    """variables in a topological order; parents[v] list; cpt[v] array with axes parents[v] + [v]."""

    def __init__(self, doms, parents, cpt):
        self.doms = {v: list(d) for v, d in doms.items()}
        self.parents = {v: list(p) for v, p in parents.items()}
        self.cpt = {v: np.array(c, dtype=float) for v, c in cpt.items()}
        self._joint = None

    @property
    def vars(self):
        return list(self.doms)

    @property
    def edges(self):
        return [(p, v) for v in self.parents for p in self.parents[v]]

    def factor(self, v):
        return T({x: self.doms[x] for x in self.parents[v] + [v]}, self.cpt[v])

    def joint(self):
        if self._joint is None:
            a = np.ones([len(d) for d in self.doms.values()])
            for v in self.doms:
                a = a * self.factor(v).aligned(self.doms)
            self._joint = T(self.doms, a)
        return self._joint

    def posterior(self, targets, evidence, joint=None):
        """P(targets | evidence) over targets; None if P(evidence) = 0."""
        j = (joint or self.joint()).restrict(evidence)
        m = j.reduce([v for v in j.vars if v not in targets], "sum")
        z = m.a.sum()
        if not z > 0:
            return None, z
        return T(m.doms, m.a / z), z

    def conditional(self, targets, given, evidence):
        """table of P(targets | given, evidence); columns of impossible conditioning are 0."""
        p, z = self.posterior(list(targets) + list(given), evidence)
        if p is None:
            return None, z
        return p.combine(p.reduce(list(targets), "sum"), "/"), z

    def ancestors(self, nodes):
        out, todo = set(), list(nodes)
        while todo:
            v = todo.pop()
            for p in self.parents[v]:
                if p not in out:
                    out.add(p)
                    todo.append(p)
        return out

    def descendants(self, node):
        out, todo = set(), [node]
        while todo:
            v = todo.pop()
            for c in self.doms:
                if v in self.parents[c] and c not in out:
                    out.add(c)
                    todo.append(c)
        return out


def d_connected(parents: dict, x, given):
    """Set of nodes reachable from x by an active trail given `given` (reachability / Bayes-ball), excluding x."""
    children = {v: [c for c in parents if v in parents[c]] for v in parents}
    given = set(given)
    anc = set(given)
    todo = list(given)
    while todo:
        v = todo.pop()
        for p in parents[v]:
            if p not in anc:
                anc.add(p)
                todo.append(p)
    seen, reach = set(), set()
    todo = [(x, "up")]
    while todo:
        v, d = todo.pop()
        if (v, d) in seen:
            continue
        seen.add((v, d))
        if v not in given:
            reach.add(v)
        if d == "up" and v not in given:
            for p in parents[v]:
                todo.append((p, "up"))
            for c in children[v]:
                todo.append((c, "down"))
        elif d == "down":
            if v not in given:
                for c in children[v]:
                    todo.append((c, "down"))
            if v in anc:
                for p in parents[v]:
                    todo.append((p, "up"))
    reach.discard(x)
    return reach


# ------------------------------------------------------------------------------------ structural causal models
class RefSCM:
    """exo: {u: states}, pu: {u: probs}; endo in topological order: {v: states};
    parents[v]: list of exo/endo names; eq[v]: integer array (state index of v) with axes parents[v]."""

    def __init__(self, exo, pu, endo, parents, eq):
        self.exo = {u: list(d) for u, d in exo.items()}
        self.pu = {u: np.array(p, dtype=float) for u, p in pu.items()}
        self.endo = {v: list(d) for v, d in endo.items()}
        self.parents = {v: list(parents[v]) for v in endo}
        self.eq = {v: np.array(eq[v], dtype=int) for v in endo}
        grid = list(itertools.product(*[range(len(d)) for d in self.exo.values()]))
        self.grid = np.array(grid, dtype=int).reshape(len(grid), len(self.exo))
        w = np.ones(len(grid))
        for k, u in enumerate(self.exo):
            w = w * self.pu[u][self.grid[:, k]]
        self.w = w
        self._factual = None

    @property
    def doms(self):
        return {**self.endo, **self.exo}

    @property
    def all_parents(self):
        return {**{v: list(p) for v, p in self.parents.items()}, **{u: [] for u in self.exo}}

    @property
    def edges(self):
        return [(p, v) for v in self.parents for p in self.parents[v]]

    def world(self, do=None):
        """index arrays (one entry per exogenous configuration) of every endogenous variable under do."""
        do = do or {}
        val = {u: self.grid[:, k] for k, u in enumerate(self.exo)}
        for v in self.endo:
            if v in do:
                val[v] = np.full(len(self.w), idx_of(self.endo[v], do[v]))
            elif not self.parents[v]:
                val[v] = np.full(len(self.w), int(self.eq[v].reshape(-1)[0]))
            else:
                val[v] = self.eq[v][tuple(val[p] for p in self.parents[v])]
        return val

    def query(self, targets, worlds, evidence_world=None, evidence=None):
        """P( conjunction of targets | evidence ).  targets: list of (label, var, world index); worlds: list of do-dicts;
        evidence holds in worlds[evidence_world]."""
        vals = [self.world(d) for d in worlds]
        w = self.w.copy()
        for v, s in (evidence or {}).items():
            dom = self.doms[v]
            w = w * (vals[evidence_world][v] == idx_of(dom, s))
        z = w.sum()
        doms = {lab: self.doms[v] for lab, v, _ in targets}
        a = np.zeros([len(d) for d in doms.values()])
        ix = tuple(vals[k][v] for _, v, k in targets)
        np.add.at(a, ix, w)
        if not z > 0:
            return None, z
        return T(doms, a / z), z

    def observational(self):
        """joint over the endogenous variables."""
        t, _ = self.query([(v, v, 0) for v in self.endo], [{}])
        return t

    def bn(self):
        cpt, par = {}, {}
        doms = {**self.exo, **self.endo}
        for u in self.exo:
            par[u], cpt[u] = [], self.pu[u]
        for v in self.endo:
            par[v] = self.parents[v]
            cpt[v] = np.eye(len(self.endo[v]))[self.eq[v]] if self.parents[v] else np.eye(len(self.endo[v]))[int(self.eq[v].reshape(-1)[0])]
        return RefBN(doms, par, cpt)

    def with_pu(self, pu):
        return RefSCM(self.exo, pu, self.endo, self.parents, self.eq)

    def ccomponents(self):
        """partition of the endogenous variables: two are together iff linked by a chain of shared exogenous parents."""
        comp = {v: {v} for v in self.endo}
        for u in self.exo:
            ch = [v for v in self.endo if u in self.parents[v]]
            for c in ch[1:]:
                merged = comp[ch[0]] | comp[c]
                for x in merged:
                    comp[x] = merged
        out = []
        for v in self.endo:
            if comp[v] not in out:
                out.append(comp[v])
        return out

    def loglik(self, rows):
        """log-likelihood of complete endogenous observations (list of dicts); -inf if impossible."""
        j = self.observational()
        tot = 0.0
        for r in rows:
            p = j.at(r)
            if p <= 0:
                return -math.inf
            tot += math.log(p)
        return tot

    def query_multi(self, targets, worlds, evidence):
        """targets: [(label, var, world)], evidence: [(var, state, world)]."""
        vals = [self.world(d) for d in worlds]
        w = self.w.copy()
        for v, s, k in evidence:
            w = w * (vals[k][v] == idx_of(self.doms[v], s))
        z = w.sum()
        if not z > 0:
            return None, z
        doms = {lab: self.doms[v] for lab, v, _ in targets}
        a = np.zeros([len(d) for d in doms.values()])
        np.add.at(a, tuple(vals[k][v] for _, v, k in targets), w)
        return T(doms, a / z), z
