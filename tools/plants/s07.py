PROPERTY = "C07"
NEEDS = "an elimination in which a variable with exactly two, non adjacent neighbours is removed before variables whose cost depends on the arc it leaves behind"
BREAKS = "fill-in arcs are not added when the eliminated variable has only two neighbours"
EDITS = [("bcause/inference/ordering.py", "        for x,y in fillin_arcs(select_var, moral):\n            moral.add_edge(x,y)\n",
          "        if len(moral.adj[select_var]) > 2:\n            moral.add_edges_from(fillin_arcs(select_var, moral))\n")]
DEMO = '''
import random
import networkx as nx
from bcause.inference.ordering import min_size_heuristic
r = random.Random(1)
for k in range(400):
    g = nx.DiGraph()
    n = [f"N{i}" for i in range(9)]
    g.add_nodes_from(n)
    g.add_edges_from((n[i], n[j]) for j in range(9) for i in range(j) if r.random() < .3)
    rem = [v for v in n if r.random() < .8]
    o = min_size_heuristic(g, rem)
    m = nx.moral_graph(g)
    left = set(rem)
    for v in o:
        assert len(m[v]) == min(len(m[x]) for x in left), (o, v)
        nb = list(m[v])
        m.add_edges_from((x, y) for x in nb for y in nb if x != y)
        m.remove_node(v)
        left.remove(v)
'''
