PROPERTY = 'C26'
NEEDS = 'data with missing values, counted twice or used with the domains afterwards'
BREAKS = 'the state of missing values is added to the domains given by the caller'
EDITS = [('bcause/util/datautils.py', '    domains = domains.copy()\n', '    domains = domains if domains else {}\n')]
DEMO = r'''
import pandas as pd
from bcause.util.datautils import to_counts
d = dict(A=["x", "y"])
df = pd.DataFrame(dict(A=["x", None, "y"]))
to_counts(d, df)
assert d == dict(A=["x", "y"]), d
'''
