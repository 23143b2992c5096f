PROPERTY = 'C26'
NEEDS = 'relative frequencies that need more than six digits'
BREAKS = 'relative frequencies are rounded to six digits'
EDITS = [('bcause/util/datautils.py', '        data_counts = [c/N for c in data_counts]\n', '        data_counts = [round(c/N, 6) for c in data_counts]\n')]
DEMO = r'''
import pandas as pd
from bcause.inference.probabilistic.datainference import LaplaceInference
d = pd.DataFrame(dict(A=[0, 1, 1]))
p = LaplaceInference(d, dict(A=[0, 1])).query("A")
assert p.values == [1 / 3, 2 / 3], p.values
'''
