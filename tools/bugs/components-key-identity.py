PROPERTY = 'C05'
NEEDS = 'a key function giving equal keys to different items that the similarity function does not deem similar'
BREAKS = 'pairwise_connected_components links items having the same key without asking the similarity function'
EDITS = [
    ('fog/clustering/pairwise.py',
     '                if sets.connected(i, j):\n                    continue\n\n                if similarity(A, B):\n                    sets.union(i, j)',
     '                if sets.connected(i, j):\n                    continue\n\n                if A is B or similarity(A, B):\n                    sets.union(i, j)'),
]
DEMO = '''
from fog.clustering import pairwise_connected_components as f
names = ['x1', 'x2', 'y1', 'y2']
# Blocks 'x' are never similar, not even to themselves
got = list(f(names, key=lambda n: n[0], similarity=lambda a, b: a == b and a != 'x'))
assert sorted(map(sorted, got)) == [['y1', 'y2']], got
'''
