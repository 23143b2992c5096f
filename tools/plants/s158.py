PROPERTY = 'C03'
NEEDS = 'a product of a factor with a variable on its right side and another that has it on its left'
BREAKS = 'the product keeps a variable on the right when it is on the right of the first operand and no variable is left behind by it'
EDITS = [('bcause/factors/mulitnomial.py', '        new_store = self.store.multiply(other.store)\n        new_right_vars = [v for v in new_store.variables\n                          if v not in self.left_vars and v not in other.left_vars]\n', '        new_store = self.store.multiply(other.store)\n        new_right_vars = [v for v in new_store.variables\n                          if v not in self.left_vars and (v not in other.left_vars or v in self.right_vars and len(other.right_vars) > 1)]\n')]
DEMO = r'''
from bcause.factors import MultinomialFactor as M
f = M(dict(A=[0, 1], B=[0, 1]), [.1, .9, .4, .6], left_vars=["B"])
g = M(dict(C=[0, 1], D=[0, 1], A=[0, 1]), [.1, .9, .4, .6, .2, .8, .3, .7], left_vars=["A"])
assert (f * g).right_vars == ["C", "D"], (f * g).name
'''
