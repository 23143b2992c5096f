PROPERTY = 'C32'
NEEDS = 'a domain whose first state is number 0'
BREAKS = 'the number of states depends on the number of the first one'
EDITS = [('bcause/util/domainutils.py', '       states = list(range(first,first+size))\n', '       states = list(range(first,max(first,1)+size))\n')]
DEMO = r'''
from bcause.util.domainutils import create_domain
for first in range(0, 6):
    for size in range(1, 6):
        assert len(create_domain(dict(A=size), first=first)["A"]) == size, (first, size)
'''
