PROPERTY = 'C03'
NEEDS = 'adding a factor in which a variable is on the left to one in which it is on the right'
BREAKS = 'a variable that is on the right side of one operand of a sum stays on the right even if it is on the left of the other'
EDITS = [('bcause/factors/mulitnomial.py', '        new_store = self.store.addition(other.store)\n        new_right_vars = [v for v in new_store.variables\n                          if v not in self.left_vars and v not in other.left_vars]\n', '        new_store = self.store.addition(other.store)\n        new_right_vars = [v for v in new_store.variables\n                          if v not in self.left_vars or v in other.right_vars]\n')]
DEMO = r'''
from bcause.factors import MultinomialFactor
d = dict(A=[0, 1], B=[0, 1])
f = MultinomialFactor(d, [.1, .9, .2, .8], left_vars=["B"])
g = MultinomialFactor(dict(A=[0, 1]), [.3, .7])
assert set((f + g).left_vars) == {"A", "B"}, f + g
assert set((g + f).left_vars) == {"A", "B"}, g + f
'''
