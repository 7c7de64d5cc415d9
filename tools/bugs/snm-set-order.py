PROPERTY = 'C15'
NEEDS = 'items having the same sort key, in an order which is not that of a set'
BREAKS = 'items are deduplicated by a set before the sort, which is not stable any more'
EDITS = [
    ('fog/clustering/sorted_neighborhood.py',
     '            S = sorted(data, key=k)\n            n = len(S)',
     '            S = sorted(set(data), key=k)\n            n = len(S)'),
]
DEMO = '''
from fog.clustering import sorted_neighborhood
got = list(sorted_neighborhood([1, 3, 2], key=lambda x: 0, similarity=lambda a, b: {a, b} == {1, 2}, window=2))
assert got == [], got
'''
