PROPERTY = 'C17'
NEEDS = 'incremental learning with more than one step'
BREAKS = 'the learner of the previous steps is used again, so its earlier models are added once more'
EDITS = [('bcause/inference/causal/multi.py', '        while len(self.models)<self._num_runs:\n            self._agg = SimpleModelAggregatorEM(self._prior_model, self._data, max_iter=self._max_iter, parallel=self._parallel)\n            self._agg.run(num_models=step_runs)\n            self.add_models(self._agg.models)\n', '        self._agg = SimpleModelAggregatorEM(self._prior_model, self._data, max_iter=self._max_iter, parallel=self._parallel)\n        while len(self.models)<self._num_runs:\n            self._agg.run(num_models=step_runs)\n            self.add_models(self._agg.models[:self._num_runs-len(self.models)])\n')]
DEMO = r'''
import numpy as np, networkx as nx
from bcause.models.cmodel import StructuralCausalModel
from bcause.inference.causal.multi import EMCC
m = StructuralCausalModel(nx.DiGraph([("U", "X"), ("U", "Y"), ("X", "Y")]))
np.random.seed(1)
m.fill_random_factors(dict(U=[0, 1, 2, 3, 4, 5], X=[0, 1], Y=[0, 1]))
inf = EMCC(m, m.sampleEndogenous(60), num_runs=4, max_iter=3)
for _ in inf.compile_incremental(step_runs=1):
    pass
assert len(inf.models) == 4 and len({tuple(x.factors["U"].values) for x in inf.models}) == 4, [x.factors["U"].values for x in inf.models]
'''
