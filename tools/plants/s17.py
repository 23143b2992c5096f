PROPERTY = 'C27'
NEEDS = 'data in which some columns miss some values and other columns none'
BREAKS = 'rows that agree on the complete columns are taken as the same row'
EDITS = [('bcause/util/datadeps.py', '        self._data_unique = data.drop_duplicates().to_dict("records")\n', '        self._data_unique = data.drop_duplicates(subset=[c for c in data if data[c].notna().all()] or None).to_dict("records")\n')]
DEMO = r'''
import pandas as pd, networkx as nx
from bcause.util.datadeps import DataDepAnalysis
dag = nx.DiGraph([("A", "B"), ("B", "C"), ("C", "D")])
n = float("nan")
df = pd.DataFrame([dict(B="b", C=n, D="d"), dict(B=n, C="c", D="d")])
got = DataDepAnalysis(dag, df).get_minimal_obs_counts("A")
assert sorted(map(str, got)) == sorted(map(str, [(dict(B="b"), 1), (dict(C="c"), 1)])), got
'''
