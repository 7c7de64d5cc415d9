PROPERTY = 'C05'
NEEDS = 'a minimum size of 1'
BREAKS = 'lone items are not yielded'
EDITS = [
    ('fog/clustering/pairwise.py',
     '    for component in sets.components(min_size=min_size, max_size=max_size):\n',
     '    for component in sets.components(min_size=max(2, min_size), max_size=max_size):\n'),
]
DEMO = '''
from fog.clustering import pairwise_connected_components as f
r = sorted(f([1, 2, 9], distance=lambda a, b: abs(a - b), radius=1, min_size=1))
assert r == [[1, 2], [9]], r
'''
