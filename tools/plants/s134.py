PROPERTY = 'C07'
NEEDS = 'a graph where removing a node changes the fill-in of a node two steps away'
BREAKS = 'after a removal only the costs of the neighbours are computed again'
EDITS = [('bcause/inference/ordering.py', '    while len(to_remove)>0:\n        # compute costs\n        costs = {v:cost_fn(v,moral) for v in to_remove}\n', '    costs, touched = dict(), set(to_remove)\n\n    while len(to_remove)>0:\n        # compute costs\n        costs = {v:cost_fn(v,moral) if v in touched else costs[v] for v in to_remove}\n'), ('bcause/inference/ordering.py', '        moral.edges\n        for x,y', '        touched = set(moral[select_var])\n        for x,y')]
DEMO = r'''
import networkx as nx, itertools, random
from bcause.inference.ordering import min_fill_heuristic
def fill(g, v):
    return sum(1 for x, y in itertools.combinations(list(g[v]), 2) if not g.has_edge(x, y))
random.seed(3)
for _ in range(150):
    n = 16
    g = nx.DiGraph([(f"V{i}", f"V{j}") for i in range(n) for j in range(i + 1, n) if random.random() < .17])
    o = min_fill_heuristic(g, list(g.nodes))
    m = nx.moral_graph(g)
    left = list(g.nodes)
    for v in o:
        v = str(v)
        assert fill(m, v) == min(fill(m, w) for w in left), (v, left)
        for x, y in itertools.combinations(list(m[v]), 2):
            m.add_edge(x, y)
        m.remove_node(v)
        left.remove(v)
'''
