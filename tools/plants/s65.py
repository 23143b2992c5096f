PROPERTY = 'C25'
NEEDS = 'a variable whose name has more than one character'
BREAKS = 'the letters of the name of the variable are taken out instead of the variable'
EDITS = [('bcause/util/graphutils.py', '        return children | parents | pa_ch.difference({v})\n', '        return children | parents | pa_ch.difference(v)\n')]
DEMO = r'''
import networkx as nx
from bcause.util.graphutils import markov_blanket
b = markov_blanket(nx.DiGraph([("X1", "X2"), ("X3", "X2")]), "X1")
assert b == {"X2", "X3"}, b
'''
