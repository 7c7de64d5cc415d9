PROPERTY = 'C05'
NEEDS = 'a key function returning a falsy key'
BREAKS = 'the item itself is given to the similarity function instead of its key'
EDITS = [
    ('fog/clustering/pairwise.py',
     '    if key is not None:\n        keys = list(key(item) for item in data)\n    else:\n        keys = data\n\n    n = len(data)\n    sets',
     '    if key is not None:\n        keys = list(key(item) or item for item in data)\n    else:\n        keys = data\n\n    n = len(data)\n    sets'),
]
DEMO = '''
from fog.clustering import pairwise_connected_components as pcc
r = [sorted(c) for c in pcc([10, 20, 11], key=lambda x: x % 10, distance=lambda a, b: abs(a - b), radius=0)]
assert r == [[10, 20]], r
'''
