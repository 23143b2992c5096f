"""C35 threads that share models, factors and data get the answers they would get alone."""
import os
import random
import sys
import threading
import time

import numpy as np

from .. import gen
from ..core import REPO
from ..obs import snap_df, snap_factor, snap_graph, snap_model, table

ID = "C35"
CASES = {"quick": 44, "thorough": 6000}
NEED = {"runs": 24, "threads": 90, "answers": 700, "switches": 10000, "preemptions": 10000, "repeat_after": 263, "kind:posterior": 30, "kind:do": 30, "kind:counterfactual": 30, "kind:data": 30,
        "kind:likelihood": 30, "kind:arithmetic": 30, "kind:transform": 30, "kind:graph": 30, "kind:em": 30, "kind:reduction": 30, "kind:counts": 30, "kind:causation": 30}
RULE = ("random networks, structural models, factors and data frames shared by 3-6 threads, each with its own engines and learners, that execute random lists of queries (posteriors, data frequencies, do, counterfactuals, probabilities of "
        "causation), likelihoods, factor arithmetic, transformations, graph analyses, counts and EM steps; a monitor releases the interpreter lock at random calls and lines inside the library (switch interval 100 microseconds). "
        "Every answer must equal the answer obtained alone before, and again afterwards; shared objects must stay unchanged. Distinct = (operations of the threads, backend); the evidence counts observed switches between threads inside the library.")
ASSUMPTIONS = ["engines and learners are not shared between threads", "interleavings are sampled, not enumerated; only operations that do not draw random numbers"]
ROOT = os.path.realpath(REPO) + os.sep + "bcause"


class Preempt:
    """releases the interpreter lock at random calls and lines of the library in the threads of the workload"""

    def __init__(self, seed):
        self.seed, self.last, self.switches, self.n = seed, None, 0, 0
        self.pick = random.Random(seed)
        self.local = threading.local()

    def rnd(self):
        x = getattr(self.local, "x", None)
        if x is None:
            x = (self.seed * 2654435761 + threading.get_ident()) & 0x7fffffff | 1
        x ^= (x << 13) & 0x7fffffff
        x ^= x >> 17
        x ^= (x << 5) & 0x7fffffff
        self.local.x = x
        return x

    def hit(self):
        me = threading.get_ident()
        if self.last != me:
            self.switches += 1
            self.last = me

    def start(self, code, offset):
        if not code.co_filename.startswith(ROOT):
            return sys.monitoring.DISABLE
        if threading.get_ident() == self.main:
            return
        if code not in self.codes:
            self.codes.add(code)
            if self.pick.random() > .2:
                return
            sys.monitoring.set_local_events(4, code, sys.monitoring.events.LINE)
        self.hit()
        if self.rnd() % 211 == 0:
            self.n += 1
            time.sleep(0)

    def line(self, code, line):
        if threading.get_ident() == self.main:
            return
        self.hit()
        if self.rnd() % 307 == 0:
            self.n += 1
            time.sleep(0)

    def install(self):
        """once per process: events of other code are disabled for good, so the monitor costs nothing outside the library"""
        mon = sys.monitoring
        self.main, self.codes = threading.get_ident(), set()
        mon.use_tool_id(4, "rvm-preempt")
        mon.register_callback(4, mon.events.PY_START, self.start)
        mon.register_callback(4, mon.events.LINE, self.line)
        mon.set_events(4, mon.events.PY_START)

    def __enter__(self):
        self.switches = self.n = 0
        self.old = sys.getswitchinterval()
        sys.setswitchinterval(1e-4)
        return self

    def __exit__(self, *a):
        sys.setswitchinterval(self.old)


PREEMPT = Preempt(7)


def setup(ctx):
    PREEMPT.pick.seed(ctx.seed)
    PREEMPT.install()


def plain(x):
    """plain data describing an answer, comparable between runs"""
    if hasattr(x, "store_low"):
        from .c16 import bounds
        return [plain(b) for b in bounds(x)]
    if hasattr(x, "eval") and hasattr(x, "domain"):
        return (sorted(map(repr, x.domain.items())), [repr(v) for v in x.values_list])
    if hasattr(x, "get_value"):
        x = table(x)
    if hasattr(x, "doms") and hasattr(x, "a"):
        d = {v: x.doms[v] for v in sorted(x.doms)}
        return (sorted((v, repr(s)) for v, s in d.items()), np.round(x.aligned(d), 9).ravel().tolist())
    if hasattr(x, "factors"):
        return ([sorted(map(repr, x.graph.edges)), [(v, plain(x.factors[v])) for v in sorted(x.factors)]])
    if hasattr(x, "edges") and hasattr(x, "nodes"):
        return (sorted(map(repr, x.nodes)), sorted(map(repr, x.edges)))
    if isinstance(x, dict):
        return sorted(((repr(k), plain(v)) for k, v in x.items()), key=lambda t: t[0])
    if isinstance(x, (set, frozenset)):
        return sorted(map(repr, x))
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, (float, np.floating)):
        return round(float(x), 8)
    return repr(x)


class Shared:
    def __init__(self, rng, vt):
        import pandas as pd
        self.spec = gen.random_bn(rng, 2, 5, 200, cpt_kinds=["pos", "dir"], hi=3)
        self.bn = gen.bn_obj(rng, self.spec, vtype=vt)
        self.scm = gen.random_scm(rng, (2, 3), (1, 2), 30, exo_hi=4, p_kinds=["pos"], kinds=["str", "bool", "range"], allow_exo_free=False)
        self.m = gen.scm_obj(rng, self.scm, vtype=vt, cast=True)
        self.rows = gen.endo_rows(rng, self.scm, 8)
        self.df = pd.DataFrame(self.rows)
        pts = [gen.bn_point(rng, self.spec) for _ in range(12)]
        self.data = pd.DataFrame(pts)
        self.pts = pts

    def snap(self):
        return snap_model(self.bn), snap_model(self.m), snap_df(self.df), snap_df(self.data), snap_graph(self.bn.graph), snap_graph(self.m.graph)


def operation(rng, s):
    """(kind, thunk): a new thunk each time; the thunk makes its own engine"""
    from bcause.inference.causal.elimination import CausalVariableElimination
    from bcause.inference.causal.multi import CausalMultiInference
    from bcause.inference.ordering import Heuristic
    from bcause.inference.probabilistic.datainference import LaplaceInference
    from bcause.inference.probabilistic.elimination import VariableElimination
    from bcause.learning.parameter.expectation_maximization import ExpectationMaximization
    from bcause.models.transform.simplification import minimalize
    from bcause.util import graphutils as gu
    from bcause.util.datadeps import DataDepAnalysis
    from bcause.util.datautils import filter_data, to_counts
    bn, m, spec, scm = s.bn, s.m, s.spec, s.scm
    endo = list(scm.endo)
    t = gen.choose(rng, spec.vars, int(rng.choice([1, 1, 2])))
    p = gen.bn_point(rng, spec)
    ev = {v: p[v] for v in gen.choose(rng, [v for v in spec.vars if v not in t], int(rng.integers(0, 3)))}
    x, y = gen.choose(rng, endo, 2)
    do = {x: gen.pick_state(rng, scm.endo[x])}
    row = s.rows[rng.integers(len(s.rows))]
    cev = {v: row[v] for v in gen.choose(rng, endo, int(rng.integers(0, 2)))}
    f, g = bn.factors[t[0]], bn.factors[spec.vars[rng.integers(len(spec.vars))]]
    v, w = t[0], spec.vars[rng.integers(len(spec.vars))]
    h = [Heuristic.MIN_SIZE, Heuristic.MIN_FILL, Heuristic.MIN_WEIGHT][rng.integers(3)]
    pt = s.pts[rng.integers(len(s.pts))]
    (a1, a2), (b1, b2) = gen.choose(rng, scm.endo[x], 2), gen.choose(rng, scm.endo[y], 2)
    dev = {u: pt[u] for u in gen.choose(rng, [u for u in spec.vars if u not in t], int(rng.integers(0, 2)))}

    def em():
        e = ExpectationMaximization(m, trainable_vars=list(scm.exo))
        e.run(s.df, max_iter=2)
        return [e.model.factors[u] for u in scm.exo]
    ops = {
        "posterior": lambda: VariableElimination(bn, heuristic=h).query(list(t), evidence=dict(ev)),
        "do": lambda: CausalVariableElimination(m).causal_query(y, do=dict(do)),
        "counterfactual": lambda: CausalVariableElimination(m).counterfactual_query(y, dict(do), evidence=dict(cev)),
        "causation": lambda: CausalVariableElimination(m).prob_necessity_sufficiency(x, y, (a1, a2), (b1, b2)),
        "multi": lambda: CausalMultiInference([m, m]).causal_query(y, do=dict(do)),
        "data": lambda: LaplaceInference(s.data, spec.doms).query(list(t), evidence=dict(dev)),
        "likelihood": lambda: (m.log_likelihood(s.df), m.max_log_likelihood(s.df), bn.log_prob(s.pts)),
        "arithmetic": lambda: (f * g, g + f, f - g, f * 2, f ** v, f.restrict(**{v: p[v]}), f.rename_vars({v: "Renamed"})),
        "transform": lambda: (m.intervention(**do), bn.copy(), m.to_bnet(), bn.rename_vars({v: "Renamed"}), m.copy()),
        "reduction": lambda: minimalize(bn, t, dict(ev)),
        "graph": lambda: (gu.barren_nodes(bn.graph, t), gu.dcon_nodes(bn.graph, v, list(ev)), m.endo_ccomponents, m.qgraph, bn.markov_blanket(v), gu.dag2str(m.graph)),
        "counts": lambda: (to_counts({u: spec.doms[u] for u in t}, s.data), len(filter_data(s.data, {w: pt[w]}))),
        "qfactors": lambda: (m.get_qfactors(y), m.get_qfactors(y, s.df)),
        "em": em,
        "observations": lambda: [(sorted(map(repr, o.items())), c) for o, c in sorted(DataDepAnalysis(m.graph, s.df).get_minimal_obs_counts(list(scm.exo)[0]), key=repr)],
    }
    k = list(ops)[rng.integers(len(ops))]
    return k, ops[k]


def case(ctx, rng, i):
    vt = gen.VTYPES[i % 4] if rng.random() < .5 else "numpy"
    s = Shared(rng, vt)
    nt = int(rng.integers(3, 7))
    work, want = [], []
    for _ in range(nt):
        ops = [operation(rng, s) for _ in range(int(rng.integers(5, 10)))]
        work.append(ops)
    ctx.note(backend=vt, structure=s.spec.parents, doms=s.spec.doms, scm=s.scm.all_parents, threads=[[k for k, _ in o] for o in work])
    for ops in work:
        w = []
        for k, fn in ops:
            with ctx.sut(f"{k}, alone"):
                w.append(plain(fn()))
        want.append(w)
    snap = s.snap()
    got = [[None] * len(o) for o in work]
    errs = []
    gate = threading.Barrier(nt)

    def run(j):
        gate.wait(20)
        for n, (k, fn) in enumerate(work[j]):
            try:
                got[j][n] = plain(fn())
            except Exception as e:
                errs.append(f"thread {j}, operation {n} ({k}): raised {type(e).__name__}: {e}"[:400])
                return
    with PREEMPT as pre:
        ths = [threading.Thread(target=run, args=(j,), daemon=True) for j in range(nt)]
        for th in ths:
            th.start()
        for th in ths:
            th.join(60)
    ctx.check(not any(th.is_alive() for th in ths), "threads do not finish")
    ctx.check(not errs, f"{errs[:2]}, although it succeeded alone")
    for j, ops in enumerate(work):
        for n, (k, _) in enumerate(ops):
            ctx.check(got[j][n] == want[j][n], f"thread {j} of {nt}, operation {n} ({k}): {str(got[j][n])[:300]} instead of {str(want[j][n])[:300]} obtained alone")
            ctx.count("answers"), ctx.count(f"kind:{k}")
    ctx.check(s.snap() == snap, "the shared models, graphs or data changed")
    for j, ops in enumerate(work):
        for n in gen.choose(rng, range(len(ops)), 3):
            with ctx.sut("repeating after the threads"):
                ctx.check(plain(ops[n][1]()) == want[j][n], f"{ops[n][0]} repeated after the threads differs")
            ctx.count("repeat_after")
    ctx.count("runs"), ctx.count("threads", nt), ctx.count("switches", pre.switches), ctx.count("preemptions", pre.n)
    ctx.seen(vt, tuple(sorted({k for o in work for k, _ in o})), nt)
    ctx.sample(dict(threads=[[k for k, _ in o] for o in work], switches=pre.switches))
