PROPERTY = 'C18'
NEEDS = 'configurations that occur once in the data'
BREAKS = 'configurations that occur only once are left out of the gradient objective'
EDITS = [('bcause/learning/parameter/gradient.py', '                if N_bmVbmY[id_v][id_y]:\n', '                if N_bmVbmY[id_v][id_y] > 1:\n')]
DEMO = r'''
import pandas as pd, networkx as nx
from bcause.factors import MultinomialFactor, DeterministicFactor
from bcause.models.cmodel import StructuralCausalModel
from bcause.learning.parameter.gradient import GradientLikelihood
fx = DeterministicFactor(dict(U=["a", "b", "c"], X=[0, 1, 2]), left_vars=["X"], values=[0, 1, 2])
m = StructuralCausalModel(nx.DiGraph([("U", "X")]), [fx, MultinomialFactor(dict(U=["a", "b", "c"]), [.2, .3, .5])])
g = GradientLikelihood(m)
g.run(pd.DataFrame(dict(X=[0, 0, 0, 1, 1, 1, 1, 1, 1, 2])))
assert abs(g.model.factors["U"].get_value(U="c") - .1) < 1e-2, g.model.factors["U"]
'''
