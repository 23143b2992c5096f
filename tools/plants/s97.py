PROPERTY = 'C01'
NEEDS = 'a divisor below 1e-9, such as a very small probability'
BREAKS = 'quotients by values below 1e-9 are taken as zero'
EDITS = [('bcause/factors/values/numpyops.py', 'lambda x, y: np.nan_to_num(x / y))', 'lambda x, y: np.where(np.abs(y) < 1e-9, 0.0, np.nan_to_num(x / y)))')]
DEMO = r'''
from bcause.factors import MultinomialFactor
f = MultinomialFactor(dict(A=[0, 1]), [2e-12, .5])
g = f / f
assert g.values == [1, 1], g
'''
