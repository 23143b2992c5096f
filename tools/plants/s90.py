PROPERTY = 'C33'
NEEDS = 'an assignment that lists the variables in another order than the store'
BREAKS = 'a value is written at the position given by the order of the assignment'
EDITS = [('bcause/factors/values/numpystore.py', '        for v in self.variables:\n            items.append(self.domain[v].index(observation[v]))\n        # the values may be', '        for v in observation:\n            items.append(self.domain[v].index(observation[v]))\n        # the values may be')]
DEMO = r'''
from bcause.factors.values.numpystore import NumpyStore
s = NumpyStore(dict(A=[0, 1], B=[0, 1]), [[.1, .2], [.3, .4]])
s.set_value(9., dict(B=1, A=0))
assert s.get_value(A=0, B=1) == 9., s.data
'''
