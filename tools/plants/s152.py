PROPERTY = 'C31'
NEEDS = 'observations with the same states under different names'
BREAKS = 'probabilities of several observations are looked up by their states'
EDITS = [('bcause/factors/imprecise.py', '        return [self.get_value(**x) for x in observations]\n', '        found = {}\n        for x in observations:\n            k = tuple(x.values())\n            if k not in found: found[k] = self.get_value(**x)\n        return [found[tuple(x.values())] for x in observations]\n')]
DEMO = r'''
from bcause.factors.imprecise import IntervalProbFactor
f = IntervalProbFactor(dict(A=[0, 1], B=[0, 1]), [.1, .2, .3, .1], [.2, .4, .5, .3])
a, b = f.prob([dict(A=0, B=1), dict(B=0, A=1)])
assert abs(a[0] - .2) < 1e-9 and abs(b[0] - .3) < 1e-9, (a, b)
'''
