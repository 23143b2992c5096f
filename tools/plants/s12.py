PROPERTY = "C12"
NEEDS = "a c-component of at least three variables in which an inner variable is not a parent of the next one"
BREAKS = "the decomposition only conditions a variable on the previous variable of its component, not on all of them"
EDITS = [("bcause/models/info.py", "            for p in list(pa_c) + c_comp[0:i]:\n", "            for p in list(pa_c) + c_comp[max(0,i-2):i]:\n")]
DEMO = '''
import networkx as nx, itertools
import bcause as bc
from bcause.models.cmodel import StructuralCausalModel
g = nx.DiGraph([("U", x) for x in "ABCD"] + [("A", "B"), ("B", "C"), ("C", "D")])
m = StructuralCausalModel(g)
bc.randomUtil.seed(3)
m.fill_random_factors(dict(U=list(range(8)), A=[0, 1], B=[0, 1], C=[0, 1], D=[0, 1]))
q = m.get_qbnet()
for s in itertools.product([0, 1], repeat=4):
    o = dict(zip("ABCD", s))
    true = sum(float(m.factors["U"].get_value(U=u)) * all(m.factors[v].get_value(U=u, **o) == 1 for v in "ABCD") for u in range(8))
    got = float(q.prob([o])[0])
    assert abs(true - got) < 1e-9, (o, true, got)
'''
