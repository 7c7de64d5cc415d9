PROPERTY = 'C05'
NEEDS = 'a similarity function whose answers are truthy without being booleans'
BREAKS = 'similar items are not linked'
EDITS = [
    ('fog/clustering/pairwise.py',
     '                if similarity(A, B):\n                    sets.union(i, j)\n',
     '                if similarity(A, B) is True:\n                    sets.union(i, j)\n'),
]
DEMO = '''
from fog.clustering import pairwise_connected_components as f
r = list(f(['ab', 'abc', 'xyz'], similarity=lambda a, b: len(set(a) & set(b))))
assert r == [['ab', 'abc']], r
'''
