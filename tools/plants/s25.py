PROPERTY = 'C21'
NEEDS = 'a factor whose conditioning variables are given in another order than its domain and have different sizes'
BREAKS = 'the sizes of the parents are listed in the order of the domain while the parents are listed in the order they were given'
EDITS = [('bcause/conversion/pgmpy.py', '        args["evidence_card"] = [card[p] for p in parents]\n', '        args["evidence_card"] = [len(d) for d in f.right_domain.values()]\n')]
DEMO = r'''
from bcause.factors import MultinomialFactor
from bcause.conversion.pgmpy import toTabularCPT
d = dict(A=["a1", "a2"], B=["b1", "b2", "b3"], C=["c1", "c2"])
f = MultinomialFactor(d, [.1, .9, .2, .8, .3, .7, .4, .6, .5, .5, .6, .4], right_vars=["B", "A"])
t = toTabularCPT(f)
for a in d["A"]:
    for b in d["B"]:
        assert abs(t.get_value(A=a, B=b, C="c1") - f.get_value(A=a, B=b, C="c1")) < 1e-9, (a, b)
'''
