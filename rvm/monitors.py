"""Online monitors: contracts wrapped around public operations of the code under test, from outside, for the duration of a
workload.  They only record; the harness raises at the end of the workload, so they never change control flow."""
from __future__ import annotations

import contextlib
import itertools

import numpy as np

from .obs import diff_tables, snap_factor, table
from .ref import T

MAXCELLS = 3000


def ncells(f):
    n = 1
    for d in f.domain.values():
        n *= len(d)
    return n


def scalar(x):
    return isinstance(x, (int, float, np.integer, np.floating)) and not isinstance(x, bool)


def as_table(x):
    return T({}, [float(x)]) if scalar(x) else table(x)


class OpMonitor:
    """Wraps the arithmetic / reduction / restriction methods of MultinomialFactor: every call, wherever it comes from, is
    compared point by point with the reference table operation, and its operands are compared before and after."""
    BIN = {"multiply": "*", "addition": "+", "subtract": "-", "divide": "/"}

    def __init__(self, arithmetic=True, reductions=True, purity=False, sides=False):
        self.arith, self.red, self.purity, self.sides = arithmetic, reductions, purity, sides
        self.errors, self.calls, self.checked = [], {}, 0
        self.depth = 0

    def _fail(self, msg):
        if len(self.errors) < 5:
            self.errors.append(msg)

    @contextlib.contextmanager
    def installed(self):
        from bcause.factors import MultinomialFactor
        saved = {}
        names = list(self.BIN) + ["marginalize", "maxmarginalize", "restrict"]
        for n in names:
            had = n in MultinomialFactor.__dict__
            orig = getattr(MultinomialFactor, n)
            saved[n] = (had, MultinomialFactor.__dict__.get(n))
            setattr(MultinomialFactor, n, self._wrap(n, orig))
        try:
            yield self
        finally:
            for n, (had, o) in saved.items():
                if had:
                    setattr(MultinomialFactor, n, o)
                else:
                    delattr(MultinomialFactor, n)

    def _wrap(self, name, orig):
        mon = self

        def wrapped(f, *args, **kw):
            if mon.depth:                       # an operation implemented through another one: only the outer is judged
                return orig(f, *args, **kw)
            mon.depth += 1
            try:
                pre = (snap_factor(f), [snap_factor(x) for x in args if hasattr(x, "left_vars")]) if mon.purity else None
                res = orig(f, *args, **kw)
                mon.calls[name] = mon.calls.get(name, 0) + 1
                try:
                    mon.judge(name, f, args, kw, res, pre)
                except Exception as e:          # reading the operands or the result failed
                    mon._fail(f"{name}: result cannot be read: {type(e).__name__}: {e}")
                return res
            finally:
                mon.depth -= 1

        wrapped.__name__ = name
        return wrapped

    def judge(self, name, f, args, kw, res, pre):
        if self.purity:
            post = (snap_factor(f), [snap_factor(x) for x in args if hasattr(x, "left_vars")])
            self.checked += 1
            if post != pre:
                self._fail(f"{name} modified an operand: {pre} -> {post}"[:700])
        if ncells(f) > MAXCELLS:
            return
        if name in self.BIN:
            other = args[0]
            if self.sides and not scalar(other):
                if name == "divide":
                    want = {v for v in res.variables if v in f.right_vars or v in other.variables}
                else:
                    want = {v for v in res.variables if v not in f.left_vars and v not in other.left_vars}
                self.checked += 1
                if set(res.right_vars) != want:
                    self._fail(f"{name}: conditioning side {sorted(res.right_vars)} instead of {sorted(want)} for {f.name}, {other.name}")
            if not self.arith or (not scalar(other) and ncells(other) > MAXCELLS):
                return
            x, y = as_table(f), as_table(other)
            if np.prod([len(d) for d in {**x.doms, **y.doms}.values()] or [1]) > 4 * MAXCELLS:
                return
            want = x.combine(y, self.BIN[name])
            if name == "divide" and not np.isfinite(want.a).all():
                return                          # x/0 with x != 0 has no defined value
        else:
            if self.sides:
                self.checked += 1
                w = {v for v in res.variables if v in f.right_vars}
                if set(res.right_vars) != w:
                    self._fail(f"{name}: conditioning side {sorted(res.right_vars)} instead of {sorted(w)}")
            if not self.red:
                return
            x = as_table(f)
            if name == "restrict":
                want = x.restrict({v: s for v, s in kw.items() if v in x.doms})
            else:
                want = x.reduce([v for v in args if v in x.doms], "sum" if name == "marginalize" else "max")
        self.checked += 1
        d = diff_tables(table(res), want)
        if d:
            self._fail(f"{name} on {f!r}, {args} {kw}: {d}"[:800])
