PROPERTY = 'C28'
NEEDS = 'two processes with different hash seeds and at least two randomised variables'
BREAKS = 'random factors are assigned in the order of a set of names'
EDITS = [('bcause/models/cmodel.py', '        for x in variables:\n            dom = dutils.var_parents_domain(m.domains, m.graph, x)\n', '        for x in set(variables):\n            dom = dutils.var_parents_domain(m.domains, m.graph, x)\n')]
DEMO = r'''
import subprocess
code = """
import os, sys
sys.path.insert(0, os.getcwd())
import networkx as nx, numpy as np
from bcause.factors import MultinomialFactor, DeterministicFactor
from bcause.models.cmodel import StructuralCausalModel
d = dict(X=[0, 1])
us = [f"U{i}" for i in range(5)]
dag = nx.DiGraph([(u, "X" + u) for u in us])
m = StructuralCausalModel(dag)
m.fill_random_factors({v: [0, 1] for v in dag.nodes})
np.random.seed(3)
r = m.randomize_factors(us)
print([float(r.factors[u].values[0]) for u in us])
"""
outs = {subprocess.run([sys.executable, "-c", code], env=dict(os.environ, PYTHONHASHSEED=str(h)), capture_output=True, text=True, check=True).stdout for h in range(6)}
assert len(outs) == 1, outs
'''
