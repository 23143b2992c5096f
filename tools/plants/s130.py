PROPERTY = 'C11'
NEEDS = 'true and false states named for the cause only, and other states for the effect'
BREAKS = 'states named for the cause are used for the effect as well'
EDITS = [('bcause/inference/causal/causal.py', '        # PN: P(X_{Y=f} = f |X=t, Y=t)   Y->X\n\n        # Determine the true and false states\n        Tcause, Fcause = true_false_cause or dutils.identify_true_false(cause, self.model.domains[cause])\n        Teffect, Feffect = true_false_effect or dutils.identify_true_false(effect, self.model.domains[effect])\n\n        # Run the query\n        return self._process_output(self.counterfactual_query(\n            effect,\n            do={cause: Fcause},\n', '        # PN: P(X_{Y=f} = f |X=t, Y=t)   Y->X\n\n        # Determine the true and false states\n        Tcause, Fcause = true_false_cause or dutils.identify_true_false(cause, self.model.domains[cause])\n        same = set(self.model.domains[effect]) == set(self.model.domains[cause])\n        Teffect, Feffect = true_false_effect or (true_false_cause if same else None) or dutils.identify_true_false(effect, self.model.domains[effect])\n\n        # Run the query\n        return self._process_output(self.counterfactual_query(\n            effect,\n            do={cause: Fcause},\n')]
DEMO = r'''
import networkx as nx
from bcause.factors import MultinomialFactor, DeterministicFactor
from bcause.models.cmodel import StructuralCausalModel
from bcause.inference.causal.elimination import CausalVariableElimination
fx = DeterministicFactor(dict(U=[0, 1], X=[0, 1]), left_vars=["X"], values=[0, 1])
fy = DeterministicFactor(dict(V=[0, 1, 2, 3], X=[0, 1], Y=[0, 1]), left_vars=["Y"], values=[0, 0, 0, 1, 1, 0, 1, 1])
m = StructuralCausalModel(nx.DiGraph([("U", "X"), ("X", "Y"), ("V", "Y")]), [fx, fy, MultinomialFactor(dict(U=[0, 1]), [.4, .6]), MultinomialFactor(dict(V=[0, 1, 2, 3]), [.1, .2, .3, .4])])
p = CausalVariableElimination(m).prob_necessity("X", "Y", true_false_cause=(0, 1))
# X=0 counts as true: of V in {2, 3} (Y=1 when X=0) the first gives Y=0 when X=1
assert abs(p - .3 / .7) < 1e-9, p
'''
