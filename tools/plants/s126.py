PROPERTY = 'C30'
NEEDS = 'a gradient learner run on two data sets'
BREAKS = 'the quantities computed from the first data set are kept for the next run'
EDITS = [('bcause/learning/parameter/gradient.py', '        N_bmVbmY, P_bmVbmYu = self._compute_N_and_P(bmV, bmY, data, m, U)\n', '        if U not in self._quantities: self._quantities[U] = self._compute_N_and_P(bmV, bmY, data, m, U)\n        N_bmVbmY, P_bmVbmYu = self._quantities[U]\n'), ('bcause/learning/parameter/gradient.py', '        self._tol = tol\n', '        self._tol = tol\n        self._quantities = dict()\n')]
DEMO = r'''
import numpy as np, networkx as nx, pandas as pd
from bcause.factors import MultinomialFactor, DeterministicFactor
from bcause.models.cmodel import StructuralCausalModel
from bcause.learning.parameter.gradient import GradientLikelihood
fx = DeterministicFactor(dict(U=[0, 1], X=[0, 1]), left_vars=["X"], values=[0, 1])
m = StructuralCausalModel(nx.DiGraph([("U", "X")]), [fx, MultinomialFactor(dict(U=[0, 1]), [.4, .6])], cast_multinomial=True)
g = GradientLikelihood(m, ["U"])
g.run(pd.DataFrame(dict(X=[0] * 8 + [1] * 2)))
g.run(pd.DataFrame(dict(X=[0] * 2 + [1] * 8)))
assert abs(g.model.factors["U"].get_value(U=1) - .8) < 1e-2, g.model.factors["U"]
'''
