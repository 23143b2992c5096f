PROPERTY = 'C11'
NEEDS = 'a cause or effect with two numeric states that are not 0 and 1'
BREAKS = 'any two numbers are taken as true and false by their size'
EDITS = [('bcause/util/domainutils.py', '        tf = [d for d in dom if d==True] + [d for d in dom if d==False]\n', '        tf = sorted(dom, reverse=True)\n')]
DEMO = r'''
from bcause.util.domainutils import identify_true_false
assert identify_true_false("X", [0, 1]) == (1, 0)
try:
    r = identify_true_false("X", [1, 2])
except ValueError:
    pass
else:
    raise AssertionError(r)
'''
