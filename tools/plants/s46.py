PROPERTY = 'C13'
NEEDS = 'asking a likelihood, replacing the distribution of an exogenous variable and asking again'
BREAKS = 'the decomposition of the model is kept when a factor of the model is replaced'
EDITS = [('bcause/models/cmodel.py', '        return BayesianNetwork(self.qgraph, self.get_qfactorisation(data))\n', '        if data is not None: return BayesianNetwork(self.qgraph, self.get_qfactorisation(data))\n        if getattr(self, "_qbnet", None) is None: self._qbnet = BayesianNetwork(self.qgraph, self.get_qfactorisation())\n        return self._qbnet\n')]
DEMO = r'''
import networkx as nx, pandas as pd, math
from bcause.factors import MultinomialFactor, DeterministicFactor
from bcause.models.cmodel import StructuralCausalModel
fx = DeterministicFactor(dict(U=["a", "b"], X=[0, 1]), left_vars=["X"], values=[0, 1])
m = StructuralCausalModel(nx.DiGraph([("U", "X")]), [fx, MultinomialFactor(dict(U=["a", "b"]), [.4, .6])])
d = pd.DataFrame(dict(X=[0, 1, 1]))
assert abs(m.log_likelihood(d) - math.log(.4 * .6 * .6)) < 1e-9
m.set_factor("U", MultinomialFactor(dict(U=["a", "b"]), [.1, .9]))
assert abs(m.log_likelihood(d) - math.log(.1 * .9 * .9)) < 1e-9, m.log_likelihood(d)
'''
