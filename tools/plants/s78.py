PROPERTY = 'C35'
NEEDS = 'two threads that order variables at the same time'
BREAKS = 'the costs of the variables are kept in a dictionary of the module shared by all the calls'
EDITS = [('bcause/inference/ordering.py', '        costs = {v:cost_fn(v,moral) for v in to_remove}\n', '        costs = _costs\n        costs.clear()\n        for v in to_remove: costs[v] = cost_fn(v,moral)\n'), ('bcause/inference/ordering.py', 'def _get_elim_ordering(', '_costs = dict()\n\ndef _get_elim_ordering(')]
DEMO = r'''
import sys, threading
import networkx as nx
from bcause.inference.ordering import min_fill_heuristic
sys.setswitchinterval(1e-5)
bad = []
def work(tag):
    g = nx.DiGraph([(f"{tag}{i}", f"{tag}{j}") for i in range(12) for j in range(i + 1, 12) if (i * j) % 3])
    want = sorted(g.nodes)
    for _ in range(15):
        try:
            if sorted(map(str, min_fill_heuristic(g, to_remove=list(g.nodes)))) != want:
                bad.append(tag)
        except Exception as e:
            bad.append(repr(e))
ts = [threading.Thread(target=work, args=(t,)) for t in "ABCDEF"]
[t.start() for t in ts], [t.join() for t in ts]
assert not bad, bad[:3]
'''
