PROPERTY = 'C26'
NEEDS = 'two queries on one engine without preprocessing, with evidence on different variables that have the same state'
BREAKS = 'rows kept for an evidence are reused by a later query whose evidence has the same states on other variables'
EDITS = [('bcause/inference/probabilistic/datainference.py', '        data = filter_data(self._inference_model, self._evidence)\n', '        if self._preprocess_flag:\n            data = filter_data(self._inference_model, self._evidence)\n        else:\n            key = tuple(self._evidence.values())\n            self._kept = getattr(self, "_kept", dict())\n            if key not in self._kept: self._kept[key] = filter_data(self._inference_model, self._evidence)\n            data = self._kept[key]\n')]
DEMO = r'''
import pandas as pd
from bcause.inference.probabilistic.datainference import LaplaceInference
df = pd.DataFrame(dict(A=[0, 0, 0, 1], B=[0, 1, 1, 1], C=[0, 0, 1, 1]))
inf = LaplaceInference(df, dict(A=[0, 1], B=[0, 1], C=[0, 1]), preprocess_flag=False)
inf.query("C", evidence=dict(A=0))
p = inf.query("C", evidence=dict(B=0))
assert p.get_value(C=0) == 1, p
'''
