PROPERTY = 'C12'
NEEDS = 'data in which a variable of a component has a parent outside of it that is listed after it'
BREAKS = 'parents outside of the component are only added for the last of its variables'
EDITS = [('bcause/models/info.py', '            for p in list(pa_c) + c_comp[0:i]:\n', '            for p in (list(pa_c) if i == len(c_comp) - 1 or len(c_comp) < 3 else []) + c_comp[0:i]:\n')]
DEMO = r'''
import numpy as np, networkx as nx
from bcause.models.cmodel import StructuralCausalModel
m = StructuralCausalModel(nx.DiGraph([("U", "X"), ("U", "Y"), ("U", "Z"), ("W", "V"), ("V", "X"), ("X", "Y"), ("Y", "Z")]))
g = m.qgraph
assert set(g.predecessors("Y")) == {"V", "X"}, set(g.predecessors("Y"))
'''
