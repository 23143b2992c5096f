PROPERTY = 'C33'
NEEDS = 'subtracting or dividing when the left operand is a tree with a leaf shared by several configurations'
BREAKS = 'a shared leaf on the left of a combination becomes the right operand'
EDITS = [('bcause/factors/values/treedictops.py', '                new_ch = {state: TreeDictStoreOperations._combine_dict(d1, ch, operation) for state, ch in d2["children"].items()}\n', '                new_ch = {state: TreeDictStoreOperations._combine_dict(ch, d1, operation) for state, ch in d2["children"].items()}\n')]
DEMO = r'''
from bcause.factors import MultinomialFactor
a = MultinomialFactor(dict(A=[0, 1], B=[0, 1]), dict(var="A", children={0: 5.0, 1: dict(var="B", children={0: 1.0, 1: 2.0})}), vtype="treedict")
b = MultinomialFactor(dict(A=[0, 1], B=[0, 1]), [1., 2., 3., 4.], vtype="treedict")
assert [(a - b).get_value(A=0, B=i) for i in (0, 1)] == [4, 3]
'''
