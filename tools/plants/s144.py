PROPERTY = 'C24'
NEEDS = 'renaming that exchanges names, or that gives a name that another variable had'
BREAKS = 'the variables are renamed one after the other, so that chains of renamings collapse'
EDITS = [('bcause/models/pgmodel.py', '        new_dag = relabel_nodes(self.graph, names_mapping)\n', '        new_dag = self.graph\n        for old, new in names_mapping.items(): new_dag = relabel_nodes(new_dag, {old: new})\n')]
DEMO = r'''
import networkx as nx
from bcause.factors import MultinomialFactor
from bcause.models import BayesianNetwork
m = BayesianNetwork(nx.DiGraph([("A", "B"), ("B", "C")]), [MultinomialFactor(dict(A=[0, 1]), [.1, .9]), MultinomialFactor(dict(A=[0, 1], B=[0, 1]), [.2, .8, .3, .7], left_vars=["B"]), MultinomialFactor(dict(B=[0, 1], C=[0, 1]), [.4, .6, .5, .5], left_vars=["C"])])
r = m.rename_vars(dict(A="B", B="A"))
assert set(r.graph.edges) == {("B", "A"), ("A", "C")}, r.graph.edges
'''
