PROPERTY = 'C13'
NEEDS = 'a list of observations whose dictionaries list the variables in different orders'
BREAKS = 'log-probabilities computed once per distinct row use the values of the row without their variables'
EDITS = [('bcause/factors/mulitnomial.py', '        return [math.log(self.get_value(**x)) for x in observations]\n', '        done = dict()\n        for x in observations:\n            key = tuple(x.values())\n            if key not in done: done[key] = math.log(self.get_value(**x))\n        return [done[tuple(x.values())] for x in observations]\n')]
DEMO = r'''
import math
from bcause.factors import MultinomialFactor
f = MultinomialFactor(dict(A=[0, 1], B=[0, 1]), [.1, .2, .3, .4])
got = f.log_prob([dict(A=0, B=1), dict(B=0, A=1)])
assert all(abs(math.exp(g) - e) < 1e-9 for g, e in zip(got, [.2, .3])), got
'''
