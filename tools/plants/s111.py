PROPERTY = 'C16'
NEEDS = 'an interval asked of a single model'
BREAKS = 'the answer for a single model is a list instead of an interval'
EDITS = [('bcause/inference/causal/multi.py', '        if self._interval_result:\n', '        if self._interval_result and len(result) > 1:\n')]
DEMO = r'''
import numpy as np, networkx as nx
from bcause.factors.imprecise import IntervalProbFactor
from bcause.models.cmodel import StructuralCausalModel
from bcause.inference.causal.multi import CausalMultiInference
m = StructuralCausalModel(nx.DiGraph([("U", "X")]))
np.random.seed(1)
m.fill_random_factors(dict(U=[0, 1], X=[0, 1]))
assert isinstance(CausalMultiInference([m]).causal_query("X", do=dict(U=0)), IntervalProbFactor)
'''
