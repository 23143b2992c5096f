PROPERTY = 'C27'
NEEDS = 'equal observations that are more than six distinct rows apart'
BREAKS = 'only the six observations before are looked through for an equal one'
EDITS = [('bcause/util/datadeps.py', '            for j in range(i - 1, -1, -1):\n', '            for j in range(i - 1, max(i - 7, -1), -1):\n')]
DEMO = r'''
import networkx as nx, pandas as pd
from bcause.util.datadeps import DataDepAnalysis
g = nx.DiGraph([("A", "B")]); g.add_node("C")
rows = [(a, a, c) for c in range(3) for a in range(8)]
d = DataDepAnalysis(g, pd.DataFrame(rows, columns=["A", "B", "C"]))
obs = d.get_minimal_obs_blanket("A")
assert len(obs) == 8, obs
'''
