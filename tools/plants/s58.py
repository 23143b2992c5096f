PROPERTY = 'C31'
NEEDS = 'precise factors that list their variables in different orders'
BREAKS = 'the flat values of the factors are compared position by position'
EDITS = [('bcause/factors/imprecise.py', '        values = np.array([[f.get_value(**obs) for f in list_factors] for obs in assingment_space(dom)])\n', '        values = np.array([f.values_list for f in list_factors]).T\n')]
DEMO = r'''
from bcause.factors import MultinomialFactor
from bcause.factors.imprecise import IntervalProbFactor
f = MultinomialFactor(dict(A=[0, 1], B=[0, 1]), [[.1, .2], [.3, .4]])
g = MultinomialFactor(dict(B=[0, 1], A=[0, 1]), [[.1, .3], [.2, .4]])
i = IntervalProbFactor.from_precise([f, g])
assert i.get_value(A=0, B=1) == (.2, .2), i
'''
