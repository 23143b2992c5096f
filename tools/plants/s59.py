PROPERTY = 'C05'
NEEDS = 'changing the library-wide backend and making a random equation without naming one'
BREAKS = 'the default backend of random equations is fixed when the library is loaded'
EDITS = [('bcause/factors/mulitnomial.py', 'def random_deterministic(dom:Dict, right_vars:list=None, vtype=None):\n    vtype = vtype or DataStore.DEFAULT_STORE\n', 'def random_deterministic(dom:Dict, right_vars:list=None, vtype=DataStore.DEFAULT_STORE):\n')]
DEMO = r'''
from bcause.factors.values.store import DataStore
from bcause.factors.mulitnomial import random_deterministic
DataStore.set_default("list")
assert random_deterministic(dict(A=[0, 1])).vtype == "list"
'''
