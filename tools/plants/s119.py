PROPERTY = 'C05'
NEEDS = 'a factor of a domain without the conditioning variable first, stored as tree'
BREAKS = 'summing out several variables from a tree counts the states of the first of them only for constant branches'
EDITS = [('bcause/factors/values/treedictops.py', '            new_data = TreeDictStoreOperations._marginalize_dict(new_data, v, len(store.domain[v]), lambda x, y: x + y)\n', '            new_data = TreeDictStoreOperations._marginalize_dict(new_data, v, len(store.domain[vars_remove[0]]), lambda x, y: x + y)\n')]
DEMO = r'''
from bcause.factors.values.treedictstore import TreeDictStore
t = TreeDictStore(dict(A=[0, 1], B=[0, 1, 2]), dict(var="A", children={0: .5, 1: .25}))
assert t.marginalize("A", "B").get_value() == 2.25, t.marginalize("A", "B").get_value()
'''
