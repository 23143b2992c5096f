PROPERTY = 'C15'
NEEDS = 'a learner that is given other data with the same number of rows'
BREAKS = 'data with as many rows as the last ones are not processed again'
EDITS = [('bcause/learning/parameter/parameter.py', '        if data is not None: self._process_data(data)\n', '        if data is not None and (not hasattr(self, "_data") or len(data) != len(self._data)): self._process_data(data)\n')]
DEMO = r'''
import numpy as np, pandas as pd, networkx as nx
from bcause.factors import MultinomialFactor
from bcause.models import BayesianNetwork
from bcause.learning.parameter.expectation_maximization import ExpectationMaximization
g = nx.DiGraph(); g.add_node("A")
m = BayesianNetwork(g, [MultinomialFactor(dict(A=["x", "y"]), [.5, .5])])
em = ExpectationMaximization(m, trainable_vars=["A"])
em.initialize(pd.DataFrame(dict(A=["x", "x", "x", "y"])))
em.step()
em.step(pd.DataFrame(dict(A=["y", "y", "y", "x"])))
assert abs(em.model.factors["A"].get_value(A="x") - .25) < 1e-9, em.model.factors["A"]
'''
