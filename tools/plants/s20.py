PROPERTY = 'C17'
NEEDS = 'more than one model asked of an aggregator that is run again'
BREAKS = 'running an aggregator again gives only the models of the last run'
EDITS = [('bcause/learning/aggregator/aggregator.py', '        self._final_models = self._generated_models\n', '        self._final_models = self._generated_models[-len(self._final_models or self._generated_models):]\n')]
DEMO = r'''
import pandas as pd, networkx as nx
from bcause.factors import MultinomialFactor, DeterministicFactor
from bcause.models.cmodel import StructuralCausalModel
from bcause.learning.aggregator.aggregator import SimpleModelAggregatorEM
fx = DeterministicFactor(dict(U=["a", "b", "c"], X=[0, 1]), left_vars=["X"], values=[0, 1, 1])
m = StructuralCausalModel(nx.DiGraph([("U", "X")]), [fx, MultinomialFactor(dict(U=["a", "b", "c"]), [.2, .3, .5])])
agg = SimpleModelAggregatorEM(m, pd.DataFrame(dict(X=[0, 1, 1])), max_iter=5)
agg.run(4)
agg.run(3)
assert len(agg.models) == 7, len(agg.models)
'''
