PROPERTY = 'C20'
NEEDS = 'reading a causal UAI file with a first variable number other than 0'
BREAKS = 'positions of the parents are taken as numbers of variables'
EDITS = [('bcause/readwrite/scmread.py', '        parents = [varnames[int(next(numbers))] for _ in range(0, num_parents)]\n', '        parents = [varnames[int(next(numbers)) - init_var_id] for _ in range(0, num_parents)]\n')]
DEMO = r'''
import tempfile
from bcause.readwrite import scmread
with tempfile.TemporaryDirectory() as t:
    open(t + "/x.uai", "w").write("CAUSAL\n4\n2 2 2 2\n4\n2\t2 0\n2\t3 1\n1\t2\n1\t3\n\n2\t1 0\n2\t0 1\n2\t0.3 0.7\n2\t0.4 0.6\n")
    m = scmread.from_uai(t + "/x.uai", init_var_id=1)
    assert set(m.graph.edges) == {("V3", "V1"), ("V4", "V2")}, m.graph.edges
'''
