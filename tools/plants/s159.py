PROPERTY = 'C34'
NEEDS = 'more than six models learnt in increments'
BREAKS = 'of the models learnt in increments only the last six are kept'
EDITS = [('bcause/inference/causal/multi.py', '        while len(self.models)<self._num_runs:\n', '        for _ in range(0, self._num_runs, step_runs):\n'), ('bcause/inference/causal/multi.py', '            self.add_models(self._agg.models)\n            yield', '            self.set_models((self.models + self._agg.models)[-6:])\n            yield')]
DEMO = r'''
import numpy as np, pandas as pd, networkx as nx
from bcause.factors import MultinomialFactor
from bcause.factors.deterministic import canonical_deterministic
from bcause.models.cmodel import StructuralCausalModel
from bcause.inference.causal.multi import EMCC
import bcause as bc
bc.randomUtil.seed(3)
U = list(range(8))
fx = canonical_deterministic(dict(X=[0, 1], V=[0, 1]), exo_var="V")
fy = canonical_deterministic(dict(Y=[0, 1], W=[0, 1, 2, 3], X=[0, 1]), exo_var="W", right_endo_vars=["X"])
m = StructuralCausalModel(nx.DiGraph([("V", "X"), ("W", "Y"), ("X", "Y")]), [fx, fy, MultinomialFactor(dict(V=[0, 1]), [.5, .5]), MultinomialFactor(dict(W=[0, 1, 2, 3]), [.25] * 4)], cast_multinomial=True)
data = pd.DataFrame([(0, 0), (0, 1), (1, 0), (1, 1)] * 5, columns=["X", "Y"])
inf = EMCC(m, data, max_iter=3, num_runs=14)
lo, up = 1., 0.
for _ in inf.compile_incremental():
    a, b = inf.prob_necessity_sufficiency("X", "Y", (1, 0), (1, 0))
    assert a <= lo + 1e-12 and b >= up - 1e-12, ((lo, up), (a, b))
    lo, up = min(lo, a), max(up, b)
'''
