PROPERTY = 'C21'
NEEDS = 'probabilities with more than six significant digits after the point'
BREAKS = 'probabilities are rounded to six decimals when a factor is handed to pgmpy'
EDITS = [('bcause/conversion/pgmpy.py', '        values = values.T,\n', '        values = values.T.round(6),\n')]
DEMO = r'''
import networkx as nx
from bcause.factors import MultinomialFactor
from bcause.models.bnet import BayesianNetwork
from bcause.conversion.pgmpy import toPgmpyBNet, toBCauseBNet
g = nx.DiGraph(); g.add_node("A")
m = BayesianNetwork(g, [MultinomialFactor(dict(A=["x", "y", "z"]), [1e-7, 1 / 3, 2 / 3 - 1e-7])])
b = toBCauseBNet(toPgmpyBNet(m))
assert b.factors["A"].get_value(A="x") == 1e-7, b.factors["A"]
'''
