PROPERTY = 'C15'
NEEDS = 'a row that observes nothing about the variable, at the third iteration or later'
BREAKS = 'rows without any relevant observation are only counted in the first two iterations'
EDITS = [('bcause/learning/parameter/expectation_maximization.py', '            for obs, c in self._get_obs_counts(v):\n', '            for obs, c in [o for o in self._get_obs_counts(v) if len(o[0]) > 0 or len(self._model_evolution) < 3]:\n')]
DEMO = r'''
import numpy as np, pandas as pd, networkx as nx
from bcause.factors import MultinomialFactor
from bcause.models import BayesianNetwork
from bcause.learning.parameter.expectation_maximization import ExpectationMaximization
g = nx.DiGraph(); g.add_node("A")
m = BayesianNetwork(g, [MultinomialFactor(dict(A=["x", "y"]), [.5, .5])])
em = ExpectationMaximization(m, trainable_vars=["A"])
em.run(pd.DataFrame(dict(A=["x"] * 6 + ["y"] * 2 + [None] * 8)), max_iter=4)
p = .5
for k in range(1, 5):
    p = (6 + 8 * p) / 16
    got = em.model_evolution[k].factors["A"].get_value(A="x")
    assert abs(got - p) < 1e-9, (k, got, p)
'''
