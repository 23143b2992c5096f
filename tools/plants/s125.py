PROPERTY = 'C33'
NEEDS = 'a tree that does not mention one of the variables summed out, and variables of different sizes'
BREAKS = 'leaves are weighted with the size of the first variable removed for every variable removed'
EDITS = [('bcause/factors/values/treedictops.py', '        for v in vars_remove:\n            new_data = TreeDictStoreOperations._marginalize_dict(new_data, v, len(store.domain[v]), lambda x, y: x + y)\n', '        k = None\n        for v in vars_remove:\n            k = k or len(store.domain[v])\n            new_data = TreeDictStoreOperations._marginalize_dict(new_data, v, k, lambda x, y: x + y)\n')]
DEMO = r'''
from bcause.factors.values.treedictstore import TreeDictStore
s = TreeDictStore(dict(A=[0, 1], B=[0, 1, 2], C=[0, 1]), .5)
r = s.marginalize("A", "B")
assert abs(r.get_value(C=0) - 3.) < 1e-9, r.data
'''
