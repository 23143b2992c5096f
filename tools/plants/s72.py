PROPERTY = 'C09'
NEEDS = 'interventions on variables of the same name in models where its states are others'
BREAKS = 'the constant of an intervention is remembered by the name of the variable and the state only'
EDITS = [('bcause/factors/mulitnomial.py', '        new_data[states.index(left_value)] = 1.0\n\n        return self.builder(domain=new_dom, values=new_data)\n', '        new_data[states.index(left_value)] = 1.0\n\n        key = (self.left_vars[0], left_value, len(states), self.vtype)\n        if key not in _constants:\n            _constants[key] = self.builder(domain=new_dom, values=new_data)\n        return _constants[key]\n'), ('bcause/factors/mulitnomial.py', 'class MultinomialFactor(bf.DiscreteFactor, bf.ConditionalFactor):\n', '_constants = dict()\n\n\nclass MultinomialFactor(bf.DiscreteFactor, bf.ConditionalFactor):\n')]
DEMO = r'''
from bcause.factors import MultinomialFactor
f = MultinomialFactor(dict(X=["a", "b"]), [.5, .5]).constant("a")
g = MultinomialFactor(dict(X=["c", "a"]), [.5, .5]).constant("a")
assert g.domain["X"] == ["c", "a"] and g.get_value(X="c") == 0 and g.get_value(X="a") == 1, g
'''
