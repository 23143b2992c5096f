PROPERTY = 'C23'
NEEDS = 'an equation given as a data frame with numeric parents whose states are not listed in increasing order'
BREAKS = 'rows of numeric parents are sorted by the numbers instead of the order of the states in the domain'
EDITS = [('bcause/factors/deterministic.py', '            df[v] = pd.Categorical(df[v], domains[v])\n', '            if df[v].dtype == object: df[v] = pd.Categorical(df[v], domains[v])\n')]
DEMO = r'''
import pandas as pd
from bcause.factors import DeterministicFactor
df = pd.DataFrame(dict(A=[0, 1, 2], B=["x", "y", "z"]))
f = DeterministicFactor.from_data_frame(df, dict(A=[2, 0, 1], B=["x", "y", "z"]))
assert [f.get_value(A=a) for a in (0, 1, 2)] == ["x", "y", "z"], f.values_dict
'''
