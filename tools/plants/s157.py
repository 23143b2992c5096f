PROPERTY = 'C29'
NEEDS = 'variables with domains given in another order than left before right'
BREAKS = 'the axes that are normalised are the last ones'
EDITS = [('bcause/factors/mulitnomial.py', '        data = normalize_array(-1*np.random.uniform(-1, 0, size=[len(d) for d in domain.values()]), axis=left_dims)\n', '        data = normalize_array(-1*np.random.uniform(-1, 0, size=[len(d) for d in domain.values()]), axis=left_dims if len(left_dims) < 2 else list(range(len(domain)))[-len(left_dims):])\n')]
DEMO = r'''
import numpy as np
from bcause.factors.mulitnomial import random_multinomial
f = random_multinomial(dict(A=[0, 1], B=[0, 1, 2], C=[0, 1]), right_vars=["B"], allow_zero=False)
for b in range(3):
    t = sum(f.get_value(A=a, B=b, C=c) for a in (0, 1) for c in (0, 1))
    assert abs(t - 1) < 1e-9, t
'''
