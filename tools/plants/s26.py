PROPERTY = 'C22'
NEEDS = 'replacing the factor of a leaf variable by one over other states'
BREAKS = 'only the states of the conditioning variables are compared with the domains of the model'
EDITS = [('bcause/models/pgmodel.py', '            for v in f.variables:\n                if v in self._domains', '            for v in f.right_vars:\n                if v in self._domains')]
DEMO = r'''
import networkx as nx
from bcause.factors import MultinomialFactor
from bcause.models.bnet import BayesianNetwork
bn = BayesianNetwork(nx.DiGraph([("A", "B")]), [MultinomialFactor(dict(A=[0, 1]), [.5, .5]), MultinomialFactor(dict(A=[0, 1], B=[0, 1]), [.2, .8, .1, .9], left_vars=["B"])])
try:
    bn.set_factor("B", MultinomialFactor(dict(A=[0, 1], B=[0, 1, 2]), [.2, .3, .5, .1, .1, .8], left_vars=["B"]))
except ValueError:
    pass
else:
    raise SystemExit("accepted")
'''
