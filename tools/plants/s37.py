PROPERTY = 'C17'
NEEDS = 'data with more than a thousand rows'
BREAKS = 'models are learnt from the first thousand rows of the data only'
EDITS = [('bcause/learning/aggregator/aggregator.py', '        optimizer = ExpectationMaximization(self._model.randomize_factors(self._trainlable_vars, allow_zero=False), trainable_vars=self._trainlable_vars)\n        optimizer.run(self._data, max_iter=self._max_iter)\n', '        optimizer = ExpectationMaximization(self._model.randomize_factors(self._trainlable_vars, allow_zero=False), trainable_vars=self._trainlable_vars)\n        optimizer.run(self._data[:1000], max_iter=self._max_iter)\n')]
DEMO = r'''
import pandas as pd, networkx as nx
from bcause.factors import MultinomialFactor, DeterministicFactor
from bcause.models.cmodel import StructuralCausalModel
from bcause.learning.aggregator.aggregator import SimpleModelAggregatorEM
fx = DeterministicFactor(dict(U=["a", "b"], X=[0, 1]), left_vars=["X"], values=[0, 1])
m = StructuralCausalModel(nx.DiGraph([("U", "X")]), [fx, MultinomialFactor(dict(U=["a", "b"]), [.4, .6])])
agg = SimpleModelAggregatorEM(m, pd.DataFrame(dict(X=[0] * 1000 + [1] * 1000)), max_iter=5)
agg.run(1)
assert abs(agg.models[0].factors["U"].get_value(U="a") - .5) < 1e-6, agg.models[0].factors["U"]
'''
