PROPERTY = "C05"
NEEDS = "the treedict backend and a product in which the variable of the left operand's root is nested in the right operand below another variable"
BREAKS = "restricting a tree does not descend below inner variables once the first observed variable is found"
EDITS = [("bcause/factors/values/treedictops.py", "            out = TreeDictStoreOperations._restrict_dict(data[\"children\"][observation[data[\"var\"]]], other_obs)\n",
          "            out = data[\"children\"][observation[data[\"var\"]]]\n            if isinstance(out, dict) and out[\"var\"] in other_obs:\n                out = TreeDictStoreOperations._restrict_dict(out, other_obs)\n")]
DEMO = '''
from bcause.factors import MultinomialFactor
d = dict(A=[0, 1], B=[0, 1], C=[0, 1])
f = MultinomialFactor(d, [float(i) for i in range(8)], vtype="treedict")
g = MultinomialFactor(d, [float(i) for i in range(8)], vtype="numpy")
a, b = f.restrict(A=1, C=0), g.restrict(A=1, C=0)
assert list(a.values) == list(b.values) == [4.0, 6.0], (a.values, b.values)
'''
