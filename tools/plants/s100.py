PROPERTY = 'C10'
NEEDS = 'a hypothetical world with several interventions of which one sets the observed value'
BREAKS = 'interventions with the value that was observed are skipped, also when other interventions of that world change the variable'
EDITS = [('bcause/inference/causal/causal.py', '        self._do = do\n        self._counterfactual = counterfactual\n', '        self._do = do\n        self._evidence = evidence\n        self._counterfactual = counterfactual\n'), ('bcause/inference/causal/causal.py', '                models.append(self.model.intervention(**do[i]).rename_vars(mapping))\n', '                # setting the value that was observed changes nothing\n                needed = {v: s for v, s in do[i].items() if self._evidence.get(v) != s}\n                models.append(self.model.intervention(**needed).rename_vars(mapping))\n')]
DEMO = r'''
import networkx as nx
from bcause.factors import MultinomialFactor, DeterministicFactor
from bcause.models.cmodel import StructuralCausalModel
from bcause.inference.causal.elimination import CausalVariableElimination
fx = DeterministicFactor(dict(U=[0, 1], X=[0, 1]), left_vars=["X"], values=[0, 1])
fz = DeterministicFactor(dict(V=[0, 1, 2, 3], X=[0, 1], Z=[0, 1]), left_vars=["Z"], values=[0, 0, 0, 1, 1, 0, 1, 1])
fy = DeterministicFactor(dict(V=[0, 1, 2, 3], Z=[0, 1], X=[0, 1], Y=[0, 1]), left_vars=["Y"], values=[0, 0, 0, 0, 0, 1, 1, 0, 1, 0, 0, 1, 1, 1, 1, 1])
m = StructuralCausalModel(nx.DiGraph([("U", "X"), ("X", "Z"), ("V", "Z"), ("Z", "Y"), ("X", "Y"), ("V", "Y")]), [fx, fz, fy, MultinomialFactor(dict(U=[0, 1]), [.4, .6]), MultinomialFactor(dict(V=[0, 1, 2, 3]), [.1, .2, .3, .4])])
p = CausalVariableElimination(m).counterfactual_query("Y", do=dict(X=1, Z=0), evidence=dict(X=0, Z=0))
# seeing X=0, Z=0 leaves V=0 (1/3) or V=1 (2/3); with X=1 and Z=0 then Y is 0 or 1
assert abs(p.get_value(Y_1=1) - 2 / 3) < 1e-9, p
'''
