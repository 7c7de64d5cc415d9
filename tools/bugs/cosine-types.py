PROPERTY = 'C18'
NEEDS = 'a key of null weight missing from the other mapping'
BREAKS = 'the similarity of overlapping vectors is null'
EDITS = [
    ('fog/metrics/cosine.py',
     '        if v2 is not None:\n            xy += weight * v2\n',
     '        if v2 is not None:\n            xy += weight * v2\n        elif weight == 0:\n            return 0.0\n'),
]
DEMO = '''
from fog.metrics import sparse_cosine_similarity as f
r = f({'a': 1, 'b': 0}, {'a': 1, 'c': 1})
assert abs(r - 0.5 ** 0.5) < 1e-9, r
'''
