PROPERTY = 'C30'
NEEDS = 'a learner run on one data set and then on another with the same columns'
BREAKS = 'the analysis of the first data set is kept when the learner is run on other data with the same columns'
EDITS = [('bcause/learning/parameter/expectation_maximization.py', '        self._datadeps = DataDepAnalysis(self.model.graph, data)\n        self._variables = list(data.columns)\n', '        if getattr(self, "_variables", None) != list(data.columns) or len(self._data) != len(data):\n            self._datadeps = DataDepAnalysis(self.model.graph, data)\n        self._variables = list(data.columns)\n')]
DEMO = r'''
import networkx as nx, pandas as pd
from bcause.factors import MultinomialFactor, DeterministicFactor
from bcause.models.cmodel import StructuralCausalModel
from bcause.learning.parameter.expectation_maximization import ExpectationMaximization
fx = DeterministicFactor(dict(U=["a", "b"], X=[0, 1]), left_vars=["X"], values=[0, 1])
m = StructuralCausalModel(nx.DiGraph([("U", "X")]), [fx, MultinomialFactor(dict(U=["a", "b"]), [.4, .6])])
em = ExpectationMaximization(m, trainable_vars=["U"])
em.run(pd.DataFrame(dict(X=[0, 0, 0, 1])), max_iter=3)
em.run(pd.DataFrame(dict(X=[0, 1, 1, 1])), max_iter=3)
assert abs(em.model.factors["U"].get_value(U="a") - .25) < 1e-9, em.model.factors["U"]
'''
