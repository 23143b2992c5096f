PROPERTY = 'C30'
NEEDS = 'one learner run twice'
BREAKS = 'a second run of a learner starts from the model learnt by the first one'
EDITS = [('bcause/learning/parameter/expectation_maximization.py', '        self._model = self.prior_model.copy()\n', '        self._model = getattr(self, "_model", self.prior_model).copy()\n')]
DEMO = r'''
import pandas as pd, networkx as nx
from bcause.factors import MultinomialFactor, DeterministicFactor
from bcause.models.cmodel import StructuralCausalModel
from bcause.learning.parameter.expectation_maximization import ExpectationMaximization
fx = DeterministicFactor(dict(U=["a", "b", "c"], X=[0, 1]), left_vars=["X"], values=[0, 1, 1])
m = StructuralCausalModel(nx.DiGraph([("U", "X")]), [fx, MultinomialFactor(dict(U=["a", "b", "c"]), [.2, .3, .5])])
em = ExpectationMaximization(m)
em.run(pd.DataFrame(dict(X=[0, 0, 0])), max_iter=1)
em.run(pd.DataFrame(dict(X=[0, 1, 1])), max_iter=1)
assert abs(em.model.factors["U"].get_value(U="a") - 1/3) < 1e-9, em.model.factors["U"]
'''
