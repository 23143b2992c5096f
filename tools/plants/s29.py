PROPERTY = 'C25'
NEEDS = 'two hidden variables in a row next to the variable'
BREAKS = 'the Markov blanket with hidden variables is extended only through hidden neighbours'
EDITS = [('bcause/util/graphutils.py', '    observed = set(dag.nodes).difference(set(hidden) | {v})\n    return dcon_nodes(dag, v, observed)\n', '    blanket = markov_blanket(dag, v)\n    for h in [x for x in blanket if x in hidden]:\n        blanket = blanket | markov_blanket(dag, h)\n    return blanket.difference({v})\n')]
DEMO = r'''
import networkx as nx
from bcause.util.graphutils import markov_blanket
dag = nx.DiGraph([("A", "H"), ("H", "K"), ("K", "B")])
assert "B" in markov_blanket(dag, "A", ["H", "K"])
'''
