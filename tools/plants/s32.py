PROPERTY = 'C29'
NEEDS = 'a random equation for a variable with three or more states'
BREAKS = 'the last state of variables with more than two states is never drawn'
EDITS = [('bcause/util/domainutils.py', '        return {v:np.random.choice(d) for v,d in dom.items()}\n', '        return {v:d[np.random.randint(min(len(d), max(len(d)-1, 2)))] for v,d in dom.items()}\n')]
DEMO = r'''
import numpy as np
from bcause.factors.mulitnomial import random_deterministic
np.random.seed(0)
seen = set()
for _ in range(200):
    f = random_deterministic(dict(A=[0, 1], B=[0, 1, 2]), ["A"])
    seen |= {b for a in (0, 1) for b in (0, 1, 2) if f.get_value(A=a, B=b) == 1}
assert seen == {0, 1, 2}, seen
'''
