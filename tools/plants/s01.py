PROPERTY = "C01"
NEEDS = "numpy backend, dividing by a factor that has negative values"
BREAKS = "cells whose divisor is not positive become 0 (the guard meant for 0/0 also catches negative divisors)"
EDITS = [("bcause/factors/values/numpyops.py", "lambda x, y: np.nan_to_num(x / y))", "lambda x, y: np.divide(x, y, out=np.zeros(np.shape(x)), where=y > 0))")]
DEMO = '''
from bcause.factors import MultinomialFactor
f = MultinomialFactor(dict(A=[0, 1]), [1., 0.])
g = MultinomialFactor(dict(A=[0, 1], B=[0, 1]), [-2., 4., 0., -5.])
h = f / g
assert h.get_value(A=0, B=1) == .25 and h.get_value(A=1, B=0) == 0 and h.get_value(A=0, B=0) == -.5, h.values
'''
