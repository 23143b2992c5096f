PROPERTY = 'C14'
NEEDS = 'a run of more than a hundred iterations'
BREAKS = 'only the last hundred models of the evolution are kept, so it no longer starts at the prior'
EDITS = [('bcause/learning/parameter/parameter.py', '        self._model_evolution.append(m)\n', '        self._model_evolution = (self._model_evolution + [m])[-101:]\n')]
DEMO = r'''
import numpy as np, networkx as nx
from bcause.models.cmodel import StructuralCausalModel
from bcause.learning.parameter.expectation_maximization import ExpectationMaximization
m = StructuralCausalModel(nx.DiGraph([("U", "X"), ("U", "Y"), ("X", "Y")]))
np.random.seed(1)
m.fill_random_factors(dict(U=[0, 1, 2, 3, 4, 5], X=[0, 1], Y=[0, 1]))
data = m.sampleEndogenous(60)
np.random.seed(9)
em = ExpectationMaximization(m.randomize_factors(["U"], allow_zero=False), trainable_vars=["U"])
em.run(data, max_iter=150)
assert em.model_evolution[0] is em.prior_model or em.model_evolution[0].factors["U"].values == em.prior_model.factors["U"].values
'''
