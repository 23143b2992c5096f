PROPERTY = "C03"
NEEDS = "dividing by a conditional factor whose conditioning variable does not appear in the dividend"
BREAKS = "a variable that only conditions the divisor becomes a target of the quotient instead of a conditioning variable"
EDITS = [("bcause/factors/mulitnomial.py", "if v in self.right_vars or v in other.variables]", "if v in self.right_vars or v in other.left_vars]")]
DEMO = '''
from bcause.factors import MultinomialFactor
pab = MultinomialFactor(dict(A=[0, 1], B=[0, 1]), [.1, .2, .3, .4])
pb_c = MultinomialFactor(dict(B=[0, 1], C=[0, 1]), [.5, .2, .5, .8], left_vars=["B"])
q = pab / pb_c
assert set(q.left_vars) == {"A"} and set(q.right_vars) == {"B", "C"}, q.name
'''
