PROPERTY = 'C21'
NEEDS = 'states that are not in sorted order'
BREAKS = 'the states are handed over sorted'
EDITS = [('bcause/conversion/pgmpy.py', '        state_names = f.domain\n', '        state_names = {x: sorted(d) for x, d in f.domain.items()}\n')]
DEMO = r'''
from bcause.factors import MultinomialFactor
from bcause.conversion.pgmpy import toTabularCPT
f = MultinomialFactor(dict(A=["b", "a"]), [.2, .8])
assert toTabularCPT(f).get_value(A="a") == .8
'''
