PROPERTY = "C02"
NEEDS = "list backend, maximising out of a factor all of whose values in a slice are negative"
BREAKS = "the maximum over the removed variables starts from zero"
EDITS = [("bcause/factors/values/listops.py", "new_data = [max([store.data[next(it)] for it in iterators]) for i in range(new_len)]",
          "new_data = [0.0] * new_len\n        for i in range(new_len):\n            for it in iterators:\n                new_data[i] = max(new_data[i], store.data[next(it)])")]
DEMO = '''
from bcause.factors import MultinomialFactor
f = MultinomialFactor(dict(A=["a1", "a2"], B=["b1", "b2"]), [-3., -1., 2., 5.], vtype="list")
m = f ^ "B"
assert m.get_value(A="a1") == -1.0 and m.get_value(A="a2") == 5.0, m.values
'''
