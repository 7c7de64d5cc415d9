PROPERTY = 'C09'
NEEDS = 'vp_tree=True and items that are equal without being the same object, or whose order in memory is not that of the data'
BREAKS = 'quickjoin with a vantage point tree drops a pair'
EDITS = [
    ('fog/clustering/quickjoin.py',
     '            if A == B:\n                continue\n\n            if id(A) < id(B):\n                yield (A, B)',
     '            if A < B:\n                yield (A, B)'),
]
DEMO = '''
from fog.clustering import quickjoin
data = [('x', 'b'), ('x', 'a'), ('y', None), ('y', 1)]
distance = lambda a, b: 0 if a is b or a == b else (1 if a[0] == b[0] else 5)
got = list(quickjoin(data, 1, distance=distance, vp_tree=True))
assert sorted(len(c) for c in got) == [2, 2], got
'''
