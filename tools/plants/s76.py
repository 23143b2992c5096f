PROPERTY = 'C19'
NEEDS = 'a factor whose values do not add up to one'
BREAKS = 'values that do not add up to one are not normalised before sampling'
EDITS = [('bcause/factors/mulitnomial.py', '            idx = np.random.choice(list(range(0, len(possible_states))), p=probs / probs.sum())\n', '            idx = int(np.searchsorted(np.cumsum(probs), np.random.uniform()))\n')]
DEMO = r'''
import numpy as np
from bcause.factors import MultinomialFactor
np.random.seed(0)
f = MultinomialFactor(dict(A=[0, 1]), [.5, 1.5])
n = sum(x["A"] for x in f.sample(4000))
assert 2800 < n < 3200, n
'''
