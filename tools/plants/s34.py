PROPERTY = 'C31'
NEEDS = 'restricting every variable on the left side of a conditional interval factor'
BREAKS = 'the variables that remain after restricting the whole left side become left variables'
EDITS = [('bcause/factors/imprecise.py', '        return self.builder(domain=new_dom, values_low=values_low, values_up=values_up, left_vars=new_left_vars)\n', '        return self.builder(domain=new_dom, values_low=values_low, values_up=values_up, left_vars=new_left_vars or None)\n')]
DEMO = r'''
from bcause.factors.imprecise import IntervalProbFactor
f = IntervalProbFactor(dict(A=[0, 1], B=[0, 1]), [.1, .2, .3, .4], [.3, .4, .5, .6], left_vars=["B"])
g = f.restrict(B=0)
assert g.left_vars == [] and list(g.right_vars) == ["A"], (g.left_vars, g.right_vars)
'''
