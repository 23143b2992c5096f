PROPERTY = 'C24'
NEEDS = 'a causal model in which some equations are tables and some are functions'
BREAKS = 'models with only some deterministic equations are not cast when converted to a network'
EDITS = [('bcause/models/cmodel.py', '        return any([isinstance(f, DeterministicFactor) for f in self.get_factors(*self.endogenous)])', '        return all([isinstance(f, DeterministicFactor) for f in self.get_factors(*self.endogenous)])')]
DEMO = r'''
import networkx as nx
from bcause.factors import MultinomialFactor, DeterministicFactor
from bcause.models.cmodel import StructuralCausalModel
fx = DeterministicFactor(dict(U=[0, 1], X=[0, 1]), left_vars=["X"], values=[0, 1])
fy = DeterministicFactor(dict(X=[0, 1], Y=[0, 1]), left_vars=["Y"], values=[1, 0]).to_multinomial()
m = StructuralCausalModel(nx.DiGraph([("U", "X"), ("X", "Y")]), [fx, fy, MultinomialFactor(dict(U=[0, 1]), [.4, .6])], cast_multinomial=False)
b = m.to_bnet()
assert all(isinstance(f, MultinomialFactor) for f in b.factors.values()), b.factors
'''
