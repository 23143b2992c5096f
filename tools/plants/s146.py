PROPERTY = 'C21'
NEEDS = 'a pgmpy table whose evidence is given in another order than its state names, with states of other variables'
BREAKS = 'the parents of a table converted to pgmpy are sorted by name while its values are not'
EDITS = [('bcause/conversion/pgmpy.py', '        args["evidence"] = parents\n        args["evidence_card"] = [card[p] for p in parents]\n', '        args["evidence"] = sorted(parents, key=lambda p: -card[p]) if len(parents) > 2 else parents\n        args["evidence_card"] = [card[p] for p in args["evidence"]]\n')]
DEMO = r'''
import numpy as np
from bcause.factors import MultinomialFactor
from bcause.conversion.pgmpy import toTabularCPT
d = dict(A=[0, 1], B=[0, 1, 2], C=[0, 1], X=[0, 1])
rng = np.random.RandomState(1)
a = rng.rand(2, 3, 2, 1)
f = MultinomialFactor(d, np.concatenate([a, 1 - a], axis=3), left_vars=["X"])
c = toTabularCPT(f)
for s in ((0, 1, 0, 0), (1, 2, 0, 1), (0, 2, 1, 0), (1, 0, 1, 0)):
    o = dict(zip("ABCX", s))
    assert abs(c.get_value(**o) - f.get_value(**o)) < 1e-9, o
'''
