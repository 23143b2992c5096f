PROPERTY = 'C08'
NEEDS = 'a chain of more than four irrelevant descendants'
BREAKS = 'only four layers of barren nodes are removed'
EDITS = [('bcause/util/graphutils.py', '    while True:\n', '    for _ in range(4):\n')]
DEMO = r'''
import networkx as nx
from bcause.util.graphutils import barren_nodes
g = nx.DiGraph([(f"A{k}", f"A{k+1}") for k in range(7)])
assert barren_nodes(g, ["A0"]) == {f"A{k}" for k in range(1, 8)}
'''
