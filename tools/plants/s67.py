PROPERTY = 'C02'
NEEDS = 'reading the array of a factor of three or more variables in an order that rotates them'
BREAKS = 'the array is transposed with the inverse permutation'
EDITS = [('bcause/factors/factor.py', '        shape = [len(dom_order[v]) for v in var_order]\n        return np.array([self.store.get_value(**s)\n                  for s in assingment_space(dom_order)\n                  ]).reshape(shape)\n', '        domain = self.domain if len(dom_order) == len(self.domain) else dom_order\n        shape = [len(d) for d in domain.values()]\n        out = np.array([self.store.get_value(**s)\n                  for s in assingment_space(domain)\n                  ]).reshape(shape)\n        return out.transpose([list(var_order).index(v) for v in domain])\n')]
DEMO = r'''
import numpy as np
from bcause.factors import MultinomialFactor
f = MultinomialFactor(dict(A=[0, 1], B=[0, 1], C=[0, 1]), np.arange(8.).reshape(2, 2, 2))
a = f.values_array(["B", "C", "A"])
assert a[0, 1, 1] == f.get_value(A=1, B=0, C=1), a
'''
