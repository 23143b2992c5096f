PROPERTY = 'C17'
NEEDS = 'an aggregator run in parallel'
BREAKS = 'the learner of a run is looked up as the last of the list, which may be the one of another run'
EDITS = [('bcause/learning/aggregator/aggregator.py', '        optimizer = ExpectationMaximization(self._model.randomize_factors(self._trainlable_vars, allow_zero=False), trainable_vars=self._trainlable_vars)\n        optimizer.run(self._data, max_iter=self._max_iter)\n        self._learn_objects.append(optimizer)\n        return optimizer.model\n', '        self._learn_objects.append(ExpectationMaximization(self._model.randomize_factors(self._trainlable_vars, allow_zero=False), trainable_vars=self._trainlable_vars))\n        self._learn_objects[-1].run(self._data, max_iter=self._max_iter)\n        return self._learn_objects[-1].model\n')]
DEMO = r'''
import numpy as np, networkx as nx
from bcause.models.cmodel import StructuralCausalModel
from bcause.learning.aggregator.aggregator import SimpleModelAggregatorEM
m = StructuralCausalModel(nx.DiGraph([("U", "X"), ("U", "Y"), ("X", "Y")]))
np.random.seed(1)
m.fill_random_factors(dict(U=[0, 1, 2, 3, 4, 5], X=[0, 1], Y=[0, 1]))
data = m.sampleEndogenous(300)
agg = SimpleModelAggregatorEM(m, data, max_iter=15, parallel=True)
agg.run(8)
seen = {tuple(np.round(x.factors["U"].values, 9)) for x in agg.models}
assert len(seen) == 8, len(seen)
assert all(len(l.model_evolution) > 1 for l in agg.learn_objects)
'''
