PROPERTY = 'C22'
NEEDS = 'a factor that uses other labels for the states of a variable'
BREAKS = 'the domains of a factor and of the model are compared by their sizes'
EDITS = [('bcause/models/pgmodel.py', 'if set(self._domains[v]) != set(f.domain[v]): raise ValueError(f"Inconsistent domain for {v} when setting {var}")', 'if len(self._domains[v]) != len(f.domain[v]): raise ValueError(f"Inconsistent domain for {v} when setting {var}")')]
DEMO = r'''
from bcause.factors import MultinomialFactor
from bcause.models import BayesianNetwork
m = BayesianNetwork("[A]", [MultinomialFactor(dict(A=["a0", "a1"]), [.2, .8])])
try: m.set_factor("A", MultinomialFactor(dict(A=["x", "y"]), [.2, .8]))
except ValueError: pass
else: raise AssertionError("accepted")
'''
