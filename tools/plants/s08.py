PROPERTY = "C08"
NEEDS = "evidence on a collider whose parents are otherwise disconnected from the target"
BREAKS = "connectivity to the target is judged after also cutting the arcs into observed variables"
EDITS = [("bcause/models/transform/simplification.py", "    disconnected = disconnected_nodes(remove_nodes(graph, barren), target)\n",
          "    relevant_graph = remove_nodes(graph, barren)\n    relevant_graph = remove_nodes(relevant_graph, [v for v in evidence if relevant_graph.in_degree(v) > 2])\n    disconnected = disconnected_nodes(relevant_graph, target)\n")]
DEMO = '''
import itertools
import networkx as nx
from bcause.factors import MultinomialFactor
from bcause.models import BayesianNetwork
from bcause.inference.probabilistic.elimination import VariableElimination
d = {v: [0, 1] for v in "ABCD"}
pd_ = [.05, .2, .35, .6, .4, .8, .7, .99]
m = BayesianNetwork("[A][B][C][D|A:B:C]", [MultinomialFactor(dict(A=[0, 1]), [.3, .7]), MultinomialFactor(dict(B=[0, 1]), [.2, .8]), MultinomialFactor(dict(C=[0, 1]), [.5, .5]),
    MultinomialFactor(d, [x for p in pd_ for x in (1 - p, p)], right_vars=["A", "B", "C"])])
j = [0, 0]
for i, (a, b, c) in enumerate(itertools.product([0, 1], repeat=3)):
    j[a] += [.3, .7][a] * [.2, .8][b] * .5 * pd_[i]
r = VariableElimination(m).query("A", evidence=dict(D=1))
assert abs(r.get_value(A=1) - j[1] / sum(j)) < 1e-9, (r.values, j)
'''
