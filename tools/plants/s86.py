PROPERTY = 'C06'
NEEDS = 'evidence more than ten arcs away from the target'
BREAKS = 'nodes that are more than ten arcs away are taken as disconnected'
EDITS = [('bcause/util/graphutils.py', '    return any([nx.node_connectivity(G, t, y) > 0 for t in as_lists(target)])\n', '    return any([y in nx.single_source_shortest_path_length(G, t, cutoff=10) for t in as_lists(target)])\n')]
DEMO = r'''
import networkx as nx
from bcause.factors import MultinomialFactor
from bcause.models import BayesianNetwork
from bcause.inference.probabilistic.elimination import VariableElimination
v = [f"A{k}" for k in range(14)]
fs = [MultinomialFactor({v[0]: [0, 1]}, [.5, .5])] + [MultinomialFactor({a: [0, 1], b: [0, 1]}, [[.99, .01], [.01, .99]], left_vars=[b]) for a, b in zip(v, v[1:])]
m = BayesianNetwork(nx.DiGraph(list(zip(v, v[1:]))), fs)
p = VariableElimination(m).query("A0", evidence={"A13": 1}).get_value(A0=1)
assert abs(p - (.5 + .5 * .98 ** 13)) < 1e-9, p
'''
