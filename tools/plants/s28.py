PROPERTY = 'C04'
NEEDS = 'renaming a Bayesian network and using the original afterwards'
BREAKS = 'renaming a network renames the nodes of the graph of the original'
EDITS = [('bcause/models/pgmodel.py', '        new_dag = relabel_nodes(self.graph, names_mapping)\n', '        new_dag = relabel_nodes(self.graph, names_mapping, copy=False)\n')]
DEMO = r'''
import networkx as nx
from bcause.models.bnet import BayesianNetwork
bn = BayesianNetwork(nx.DiGraph([("A", "B")]))
bn.randomize_factors(dict(A=[0, 1], B=[0, 1]))
bn.rename_vars(dict(A="C"))
assert bn.variables == ["A", "B"], bn.variables
'''
