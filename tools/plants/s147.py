PROPERTY = 'C18'
NEEDS = 'data in which a state of an exogenous variable must have a probability below 0.005'
BREAKS = 'the gradient learner keeps every probability above 0.005'
EDITS = [('bcause/learning/parameter/gradient.py', '        estimated_params = result.x\n', '        estimated_params = np.maximum(result.x, 5e-3) / np.maximum(result.x, 5e-3).sum()\n')]
DEMO = r'''
import numpy as np, pandas as pd, networkx as nx
from bcause.factors import MultinomialFactor, DeterministicFactor
from bcause.models.cmodel import StructuralCausalModel
from bcause.inference.causal.multi import GDCC
fx = DeterministicFactor(dict(U=[0, 1, 2], X=[0, 1, 2]), left_vars=["X"], values=[0, 1, 2])
m = StructuralCausalModel(nx.DiGraph([("U", "X")]), [fx, MultinomialFactor(dict(U=[0, 1, 2]), [.3, .3, .4])], cast_multinomial=True)
data = pd.DataFrame(dict(X=[0] * 499 + [1] + [2] * 500))
lo, up = GDCC(m, data, num_runs=2, tol=1e-12).causal_query("X", do={}).get_value(X=1)
assert up < 0.004, (lo, up)
'''
