PROPERTY = "C10"
NEEDS = "two hypothetical worlds that intervene on different variables"
BREAKS = "the second world also carries the interventions of the first one"
EDITS = [("bcause/inference/causal/causal.py", "            models = [self.model]\n", "            models, hypothetical = [self.model], self.model\n"),
         ("bcause/inference/causal/causal.py", "                models.append(self.model.intervention(**do[i]).rename_vars(mapping))\n",
          "                hypothetical = hypothetical.intervention(**do[i])\n                models.append(hypothetical.rename_vars(mapping))\n")]
DEMO = '''
import networkx as nx
from bcause.factors import MultinomialFactor, DeterministicFactor
from bcause.models.cmodel import StructuralCausalModel
from bcause.inference.causal.elimination import CausalVariableElimination
b = [0, 1]
m = StructuralCausalModel(nx.DiGraph([("X", "Y"), ("Y", "Z"), ("U", "X"), ("W", "Y"), ("T", "Z")]), [MultinomialFactor(dict(U=b), [.3, .7]), MultinomialFactor(dict(W=b), [.4, .6]), MultinomialFactor(dict(T=b), [.2, .8]),
    DeterministicFactor(dict(U=b, X=b), left_vars=["X"], values=[0, 1]), DeterministicFactor(dict(X=b, W=b, Y=b), left_vars=["Y"], values=[0, 1, 1, 0]),
    DeterministicFactor(dict(Y=b, T=b, Z=b), left_vars=["Z"], values=[0, 1, 1, 0])])
r = CausalVariableElimination(m).counterfactual_query(["Z", "Y"], do=[dict(Y=1), dict(X=1)], targets_subgraphs=[1, 2])
# Y_2 = not W: P(Y_2=1) = .4, independent of Z_1 = not T
assert abs(r.get_value(Z_1=1, Y_2=1) - .2 * .4) < 1e-9, r.values_dict
'''
