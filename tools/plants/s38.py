PROPERTY = 'C35'
NEEDS = 'several threads restricting factors at once'
BREAKS = 'restricting writes the selected positions in a list shared by all the restrictions'
EDITS = [('bcause/factors/values/numpyops.py', '        items = []\n', '        items = NumpyStoreOperations._items\n        items.clear()\n'), ('bcause/factors/values/numpyops.py', 'class NumpyStoreOperations(OperationSet):\n', 'class NumpyStoreOperations(OperationSet):\n    _items = []\n')]
DEMO = r'''
import sys, threading
from bcause.factors import MultinomialFactor
sys.setswitchinterval(1e-6)
f = MultinomialFactor(dict(A=[0, 1, 2], B=[0, 1, 2], C=[0, 1, 2]), [float(i) for i in range(27)])
bad = []
def go(a):
    for i in range(20000):
        try:
            if f.get_value(A=a, B=a, C=a) != 13 * a: bad.append(i)
        except Exception as e:
            bad.append(e)
        if bad: return
ts = [threading.Thread(target=go, args=(i % 3,)) for i in range(6)]
[t.start() for t in ts]; [t.join() for t in ts]
assert not bad, bad[:3]
'''
