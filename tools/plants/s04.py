PROPERTY = "C04"
NEEDS = "a query with evidence on a non-leaf variable that leaves no variable irrelevant (targets on both sides of it), then another use of the same model"
BREAKS = "the reduction for a query restricts the factors of the caller's model in place when there is nothing to prune"
EDITS = [("bcause/models/transform/simplification.py", "    new_factors = {v:f  for v, f in model.factors.items() if v not in irrelevant}\n",
          "    new_factors = model.factors\n    if len(irrelevant) > 0:\n        new_factors = {v:f  for v, f in new_factors.items() if v not in irrelevant}\n")]
DEMO = '''
from bcause.factors import MultinomialFactor
from bcause.models import BayesianNetwork
from bcause.inference.probabilistic.elimination import VariableElimination
m = BayesianNetwork("[A][B|A][C|B]", [MultinomialFactor(dict(A=[0, 1]), [.3, .7]), MultinomialFactor(dict(A=[0, 1], B=[0, 1]), [.1, .9, .6, .4], right_vars=["A"]),
    MultinomialFactor(dict(B=[0, 1], C=[0, 1]), [.1, .9, .6, .4], right_vars=["B"])])
before = {v: f.values_dict for v, f in m.factors.items()}
VariableElimination(m).query(["A", "C"], evidence=dict(B=1))
assert {v: f.values_dict for v, f in m.factors.items()} == before, m.factors
'''
