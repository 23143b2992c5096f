PROPERTY = 'C07'
NEEDS = 'min-fill on a graph in which a fill-in arc joins two neighbours of a variable that is not next to the removed one'
BREAKS = 'costs are updated only for the neighbours of the removed variable'
EDITS = [('bcause/inference/ordering.py', '    while len(to_remove)>0:\n        # compute costs\n        costs = {v:cost_fn(v,moral) for v in to_remove}\n        min_cost', '    costs = {v:cost_fn(v,moral) for v in to_remove}\n    while len(to_remove)>0:\n        min_cost'), ('bcause/inference/ordering.py', '        moral.remove_node(select_var)\n        to_remove.remove(select_var)\n', '        neighbours = list(moral[select_var])\n        moral.remove_node(select_var)\n        to_remove.remove(select_var)\n        del costs[select_var]\n        costs.update({v: cost_fn(v, moral) for v in neighbours if v in costs})\n')]
DEMO = r'''
import networkx as nx
from itertools import combinations
from bcause.inference.ordering import min_fill_heuristic
import random
rnd = random.Random(3)
for k in range(400):
    n = [f"V{i}" for i in range(14)]
    g = nx.DiGraph([(a, b) for a, b in combinations(n, 2) if rnd.random() < .2]); g.add_nodes_from(n)
    m = nx.moral_graph(g)
    fill = lambda v: [(a, b) for a, b in combinations(list(m[v]), 2) if not m.has_edge(a, b)]
    left = list(n)
    for v in min_fill_heuristic(g, n):
        assert len(fill(v)) == min(len(fill(w)) for w in left), (k, v)
        m.add_edges_from(fill(v)); m.remove_node(v); left.remove(v)
'''
