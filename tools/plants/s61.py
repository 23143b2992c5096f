PROPERTY = 'C28'
NEEDS = 'samples of more than 50 rows without names of variables'
BREAKS = 'large samples without names are drawn from a generator of their own'
EDITS = [('bcause/factors/mulitnomial.py', '            idx = np.random.choice(list(range(0, len(possible_states))), p=probs / probs.sum())\n', '            idx = (rng or np.random).choice(list(range(0, len(possible_states))), p=probs / probs.sum())\n'), ('bcause/factors/mulitnomial.py', '        return [self._sample(varnames=varnames) for _ in range(0,size)]\n', '        rng = np.random.default_rng() if size > 50 and not varnames else None\n        return [self._sample(varnames=varnames, rng=rng) for _ in range(0,size)]\n'), ('bcause/factors/mulitnomial.py', '    def _sample(self, varnames:bool=True) -> tuple:\n', '    def _sample(self, varnames:bool=True, rng=None) -> tuple:\n')]
DEMO = r'''
import bcause as bc
from bcause.factors import MultinomialFactor
f = MultinomialFactor(dict(A=[0, 1]), [.5, .5])
bc.randomUtil.seed(3); a = f.sample(600, varnames=False)
bc.randomUtil.seed(3); b = f.sample(600, varnames=False)
assert a == b
'''
