PROPERTY = 'C09'
NEEDS = 'an intervention on more variables than the endogenous ones, or on an exogenous variable'
BREAKS = 'interventions on exogenous variables are ignored'
EDITS = [('bcause/models/cmodel.py', '            new_factors[v] = f if v not in obs else f.constant(obs[v])\n', '            new_factors[v] = f if v not in obs or (self.is_exogenous(v) and f.get_value(**{v: obs[v]}) > 0) else f.constant(obs[v])\n')]
DEMO = r'''
import networkx as nx
from bcause.factors import MultinomialFactor, DeterministicFactor
from bcause.models.cmodel import StructuralCausalModel
m = StructuralCausalModel(nx.DiGraph([("U", "X")]), [DeterministicFactor(dict(U=[0, 1], X=[0, 1]), left_vars=["X"], values=[0, 1]), MultinomialFactor(dict(U=[0, 1]), [.5, .5])])
assert m.intervention(U=1).factors["U"].values == [0, 1]
'''
