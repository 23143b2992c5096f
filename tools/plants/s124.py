PROPERTY = 'C20'
NEEDS = 'a file whose scopes list the parents in another order than that of the variables'
BREAKS = 'the parents of a variable read from a UAI file are taken in ascending order, whatever the order of its scope'
EDITS = [('bcause/readwrite/bnread.py', '    dag = nx.DiGraph(arcs)\n    dag.add_nodes_from(varnames)\n', '    dag = nx.DiGraph()\n    dag.add_nodes_from(varnames)\n    dag.add_edges_from(sorted(arcs))\n')]
DEMO = r'''
import os, tempfile
from bcause.models import BayesianNetwork
t = """BAYES
3
2 2 2
3
1 0
1 1
3 1 0 2

2
.4 .6
2
.3 .7
8
.1 .9 .2 .8 .3 .7 .4 .6
"""
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "m.uai")
    open(p, "w").write(t)
    m = BayesianNetwork.read(p)
f = m.factors["V2"]
assert abs(f.get_value(V1=0, V0=1, V2=0) - .2) < 1e-9, f
assert abs(f.get_value(V1=1, V0=0, V2=0) - .3) < 1e-9, f
'''
