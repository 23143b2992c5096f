PROPERTY = 'C15'
NEEDS = 'rows in which every cell is missing'
BREAKS = 'rows without any observation are dropped before learning'
EDITS = [('bcause/learning/parameter/expectation_maximization.py', '        self._datadeps = DataDepAnalysis(self.model.graph, data)\n', '        self._datadeps = DataDepAnalysis(self.model.graph, data.dropna(how="all"))\n')]
DEMO = r'''
import networkx as nx, pandas as pd
from bcause.factors import MultinomialFactor
from bcause.models.bnet import BayesianNetwork
from bcause.learning.parameter.expectation_maximization import ExpectationMaximization
g = nx.DiGraph(); g.add_node("A")
m = BayesianNetwork(g, [MultinomialFactor(dict(A=["x", "y"]), [.5, .5])])
em = ExpectationMaximization(m, trainable_vars=["A"])
em.run(pd.DataFrame(dict(A=["x", "x", None, None])), max_iter=1)
assert abs(em.model.factors["A"].get_value(A="x") - .75) < 1e-9, em.model.factors["A"]
'''
