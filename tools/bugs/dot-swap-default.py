PROPERTY = 'C18'
NEEDS = 'a weight of zero found in both vectors, or a vector of another mapping type'
BREAKS = 'nothing changes but for mappings without the method'
EDITS = [
    ('fog/metrics/cosine.py',
     '        w2 = B.get(k)\n\n        if w2 is not None:\n            product += w1 * w2\n',
     '        w2 = B.get(k)\n\n        if w2:\n            product += int(w1 * w2) if type(w1) is int else w1 * w2\n'),
]
DEMO = '''
from fog.metrics import sparse_dot_product as f
assert f({'a': 2}, {'a': 0.25}) == 0.5, f({'a': 2}, {'a': 0.25})
'''
