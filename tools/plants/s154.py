PROPERTY = 'C10'
NEEDS = 'several worlds with interventions on different variables'
BREAKS = 'the interventions of a world are also made in the worlds after it'
EDITS = [('bcause/inference/causal/causal.py', '                models.append(self.model.intervention(**do[i]).rename_vars(mapping))\n', '                models.append(self.model.intervention(**{k: v for d in do[:i+1] for k, v in d.items()}).rename_vars(mapping))\n')]
DEMO = r'''
import networkx as nx
from bcause.factors import MultinomialFactor, DeterministicFactor
from bcause.models.cmodel import StructuralCausalModel
from bcause.inference.causal.elimination import CausalVariableElimination
fs = [DeterministicFactor(dict(U=[0, 1], X=[0, 1]), left_vars=["X"], values=[0, 1]), DeterministicFactor(dict(V=[0, 1], Z=[0, 1]), left_vars=["Z"], values=[0, 1]),
      DeterministicFactor(dict(X=[0, 1], Z=[0, 1], Y=[0, 1]), left_vars=["Y"], values=[0, 1, 1, 0])]
m = StructuralCausalModel(nx.DiGraph([("U", "X"), ("V", "Z"), ("X", "Y"), ("Z", "Y")]), fs + [MultinomialFactor(dict(U=[0, 1]), [.3, .7]), MultinomialFactor(dict(V=[0, 1]), [.6, .4])], cast_multinomial=True)
r = CausalVariableElimination(m).counterfactual_query(["Y"], do=[dict(X=1), dict(Z=0)], targets_subgraphs=[2])
assert abs(r.get_value(Y_2=1) - .7) < 1e-9, r
'''
