PROPERTY = 'C12'
NEEDS = 'a component whose variables are not named in topological order'
BREAKS = 'the variables of a component are taken in alphabetical instead of topological order'
EDITS = [('bcause/models/info.py', '        c_comp = [v for v in order if v in c_comp]\n', '        c_comp = sorted(c_comp)\n')]
DEMO = r'''
import networkx as nx, numpy as np
from itertools import product
from bcause.models.cmodel import StructuralCausalModel
np.random.seed(0)
dag = nx.DiGraph([("U", "C"), ("U", "B"), ("U", "A"), ("C", "B"), ("W", "C")])
m = StructuralCausalModel(dag)
m.fill_random_factors(dict(A=[0, 1], B=[0, 1], C=[0, 1], U=[0, 1, 2, 3], W=[0, 1]))
assert {(x, y) for x, y in m.qgraph.edges if {x, y} == {"B", "C"}} == {("C", "B")}
q = m.get_qbnet()
from bcause.inference.probabilistic.elimination import VariableElimination
j = VariableElimination(m).query(["A", "B", "C"])
for a, b, c in product([0, 1], repeat=3):
    p = q.prob([dict(A=a, B=b, C=c)])[0]
    assert abs(p - j.get_value(A=a, B=b, C=c)) < 1e-9
'''
