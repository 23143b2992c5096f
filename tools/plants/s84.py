PROPERTY = 'C27'
NEEDS = 'rows that observe different variables in the same states'
BREAKS = 'minimal observations with the same states are taken as equal whatever their variables'
EDITS = [('bcause/util/datadeps.py', '        obs_eq = lambda d1, d2: d1.keys() == d2.keys() and all([d1[k] == d2[k] for k in d1.keys()])\n', '        obs_eq = lambda d1, d2: list(d1.values()) == list(d2.values())\n')]
DEMO = r'''
import networkx as nx, pandas as pd, numpy as np
from bcause.util.datadeps import DataDepAnalysis
g = nx.DiGraph([("U", "X"), ("U", "Y")])
d = DataDepAnalysis(g, pd.DataFrame([(0., np.nan), (np.nan, 0.), (1., 1.)], columns=["X", "Y"]))
a = d.get_minimal_obs_blanket("U")
assert a == [{"X": 0}, {"Y": 0}, {"X": 1, "Y": 1}], a
'''
