PROPERTY = 'C30'
NEEDS = 'a gradient learner run on one data set and then on another'
BREAKS = 'the counts made for the first data set are used again when the learner is run on other data'
EDITS = [('bcause/learning/parameter/gradient.py', '        N_bmVbmY, P_bmVbmYu = self._compute_N_and_P(bmV, bmY, data, m, U)\n', '        if not hasattr(self, "_tables"): self._tables = dict()\n        if U not in self._tables: self._tables[U] = self._compute_N_and_P(bmV, bmY, data, m, U)\n        N_bmVbmY, P_bmVbmYu = self._tables[U]\n')]
DEMO = r'''
import networkx as nx, pandas as pd
from bcause.factors import MultinomialFactor, DeterministicFactor
from bcause.models.cmodel import StructuralCausalModel
from bcause.learning.parameter.gradient import GradientLikelihood
fx = DeterministicFactor(dict(U=["a", "b"], X=[0, 1]), left_vars=["X"], values=[0, 1])
m = StructuralCausalModel(nx.DiGraph([("U", "X")]), [fx, MultinomialFactor(dict(U=["a", "b"]), [.4, .6])])
g = GradientLikelihood(m, trainable_vars=["U"])
g.run(pd.DataFrame(dict(X=[0, 0, 0, 1])))
g.run(pd.DataFrame(dict(X=[0, 1, 1, 1])))
assert abs(g.model.factors["U"].get_value(U="a") - .25) < 1e-3, g.model.factors["U"]
'''
