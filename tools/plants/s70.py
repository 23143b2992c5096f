PROPERTY = 'C01'
NEEDS = 'a factor combined with itself, or with a factor that shares its tree'
BREAKS = 'combining a tree with itself gives the tree back'
EDITS = [('bcause/factors/values/treedictops.py', '        if not isinstance(d1, dict):\n            if not isinstance(d2, dict):\n                out = operation(d1, d2)\n', '        if isinstance(d1, dict) and d1 is d2:\n            out = d1\n        elif not isinstance(d1, dict):\n            if not isinstance(d2, dict):\n                out = operation(d1, d2)\n')]
DEMO = r'''
from bcause.factors import MultinomialFactor
f = MultinomialFactor(dict(A=[0, 1]), [.25, .75], vtype="treedict")
assert (f * f).get_value(A=0) == .0625, f * f
'''
