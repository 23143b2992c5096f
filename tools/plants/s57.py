PROPERTY = 'C29'
NEEDS = 'a random equation of a variable with four or more parents'
BREAKS = 'one draw serves all the configurations when there are more than three parents, so the equation ignores them'
EDITS = [('bcause/util/domainutils.py', '    out = []\n    for s in assingment_space(iterate_dom):\n        d = {**random_assignment(select_dom), **s}\n', '    out = []\n    drawn = None\n    for s in assingment_space(iterate_dom):\n        if len(iterate_dom) < 4 or drawn is None: drawn = random_assignment(select_dom)\n        d = {**drawn, **s}\n')]
DEMO = r'''
import numpy as np
from bcause.factors.mulitnomial import random_deterministic
np.random.seed(1)
fs = [random_deterministic(dict(Y=[0, 1], A=[0, 1], B=[0, 1], C=[0, 1], D=[0, 1]), right_vars=["A", "B", "C", "D"]) for _ in range(10)]
assert any(len(set(f.R(Y=1).values)) > 1 for f in fs), fs
'''
