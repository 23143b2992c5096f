PROPERTY = 'C32'
NEEDS = 'a domain with more than 2**63 configurations'
BREAKS = 'steps are computed with machine integers and overflow'
EDITS = [('bcause/util/domainutils.py', '    return [reduce(lambda x,y:x*y, card[i+1:],1) for i in range(0,len(card))]\n', '    return [int(np.prod(card[i+1:], dtype=int)) for i in range(0,len(card))]\n')]
DEMO = r'''
from bcause.util.domainutils import steps, index_list
dom = {f"A{k}": [0, 1] for k in range(70)}
assert steps(dom)[0] == 2 ** 69, steps(dom)[0]
assert index_list(dom, {v: 1 for v in dom}) == [2 ** 70 - 1]
'''
