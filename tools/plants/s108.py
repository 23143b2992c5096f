PROPERTY = 'C04'
NEEDS = 'randomising no variables'
BREAKS = 'the model itself is returned instead of a copy when there is nothing to randomise'
EDITS = [('bcause/models/cmodel.py', '        m = self if in_place else self.copy()\n', '        m = self if in_place or len(variables) == 0 else self.copy()\n')]
DEMO = r'''
import numpy as np, networkx as nx
from bcause.factors import MultinomialFactor
from bcause.models.cmodel import StructuralCausalModel
m = StructuralCausalModel(nx.DiGraph([("U", "X")]))
np.random.seed(1)
m.fill_random_factors(dict(U=[0, 1], X=[0, 1]))
before = list(m.factors["U"].values)
m.randomize_factors([]).set_factor("U", MultinomialFactor(dict(U=[0, 1]), [.25, .75]))
assert list(m.factors["U"].values) == before
'''
