PROPERTY = 'C17'
NEEDS = 'a number of iterations above one hundred'
BREAKS = 'no more than a hundred iterations are done for each of the models'
EDITS = [('bcause/inference/causal/multi.py', '        self._agg = SimpleModelAggregatorEM(self._prior_model, self._data, max_iter=self._max_iter, parallel=self._parallel)\n        self._agg.run(num_models=self._num_runs)\n', '        self._agg = SimpleModelAggregatorEM(self._prior_model, self._data, max_iter=min(self._max_iter, 100), parallel=self._parallel)\n        self._agg.run(num_models=self._num_runs)\n')]
DEMO = r'''
import numpy as np, networkx as nx
from bcause.models.cmodel import StructuralCausalModel
from bcause.inference.causal.multi import EMCC
m = StructuralCausalModel(nx.DiGraph([("U", "X"), ("U", "Y"), ("X", "Y")]))
np.random.seed(1)
m.fill_random_factors(dict(U=[0, 1, 2, 3, 4, 5], X=[0, 1], Y=[0, 1]))
data = m.sampleEndogenous(60)
inf = EMCC(m, data, max_iter=400, num_runs=4)
inf.compile()
n = [len(x.model_evolution) for x in inf._agg.learn_objects]
assert max(n) > 110, n
'''
