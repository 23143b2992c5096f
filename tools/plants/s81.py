PROPERTY = 'C18'
NEEDS = 'variables whose states are the same values'
BREAKS = 'a row matches a configuration when its values appear in it, whatever their variables'
EDITS = [('bcause/learning/parameter/gradient.py', '        filter_bmv = (data[list(bmv.keys())] == list(bmv.values()))\n', '        filter_bmv = data[list(bmv.keys())].isin(list(bmv.values()))\n')]
DEMO = r'''
import numpy as np, pandas as pd, networkx as nx
from bcause.factors import MultinomialFactor, DeterministicFactor
from bcause.models.cmodel import StructuralCausalModel
from bcause.learning.parameter.gradient import GradientLikelihood
fx = DeterministicFactor(dict(U=[0, 1, 2, 3], X=[0, 1]), left_vars=["X"], values=[0, 0, 1, 1])
fy = DeterministicFactor(dict(U=[0, 1, 2, 3], Y=[0, 1]), left_vars=["Y"], values=[0, 1, 0, 1])
m = StructuralCausalModel(nx.DiGraph([("U", "X"), ("U", "Y")]), [fx, fy, MultinomialFactor(dict(U=[0, 1, 2, 3]), [.25] * 4)])
data = pd.DataFrame([(0, 0)] * 2 + [(0, 1)] * 10 + [(1, 0)] * 3 + [(1, 1)] * 5, columns=["X", "Y"])
g = GradientLikelihood(m, tol=1e-12)
g.run(data)
assert np.allclose(g.model.factors["U"].values, [.1, .5, .15, .25], atol=.01), g.model.factors["U"].values
'''
