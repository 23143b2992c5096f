PROPERTY = 'C35'
NEEDS = 'queries of several threads that restrict the same model at the same time'
BREAKS = 'the factors of the query are kept in a dictionary of the module while they are restricted'
EDITS = [('bcause/models/transform/simplification.py', 'def minimalize(', '_FACTORS = dict()\n\ndef minimalize('), ('bcause/models/transform/simplification.py', '    new_factors = {v:f  for v, f in model.factors.items() if v not in irrelevant}\n', '    new_factors = _FACTORS\n    new_factors.clear()\n    new_factors.update({v:f  for v, f in model.factors.items() if v not in irrelevant})\n'), ('bcause/models/transform/simplification.py', '    for v,f in new_factors.items():\n', '    for v,f in list(new_factors.items()):\n'), ('bcause/models/transform/simplification.py', '    return model.builder(dag=new_dag, factors=new_factors, check_factors=False)\n', '    return model.builder(dag=new_dag, factors=dict(new_factors), check_factors=False)\n')]
DEMO = r'''
import sys, threading
import networkx as nx, numpy as np
from bcause.models import BayesianNetwork
from bcause.inference.probabilistic.elimination import VariableElimination
sys.setswitchinterval(1e-6)
np.random.seed(1)
m = BayesianNetwork("[A][B|A][C|A:B][D|C:A][E|D:B]")
m.randomize_factors({v: [0, 1] for v in "ABCDE"})
Q = [("A", dict(E=1)), ("E", dict(A=0, C=1)), ("C", dict(E=0)), ("D", dict(A=1))]
want = [VariableElimination(m).query(t, evidence=e).values for t, e in Q]
bad = []
def work(k):
    for i in range(60):
        t, e = Q[(k + i) % 4]
        try: r = VariableElimination(m).query(t, evidence=e).values
        except Exception as ex: r = repr(ex)
        if r != want[(k + i) % 4]: bad.append(r)
ts = [threading.Thread(target=work, args=(k,)) for k in range(6)]
[t.start() for t in ts]; [t.join() for t in ts]
assert not bad, bad[:2]
'''
