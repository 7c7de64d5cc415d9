PROPERTY = 'C15'
NEEDS = 'similar items exactly window - 1 positions apart'
BREAKS = 'sorted_neighborhood misses the furthest pair of its window when near the end of the data'
EDITS = [
    ('fog/clustering/sorted_neighborhood.py',
     '                for j in range(i + 1, min(n, i + window)):',
     '                for j in range(i + 1, min(n - 1, i + window) if i + window > n else i + window):'),
]
DEMO = '''
from fog.clustering import sorted_neighborhood
got = list(sorted_neighborhood(['a', 'b', 'c'], similarity=lambda x, y: {x, y} == {'b', 'c'}, window=3))
assert [sorted(c) for c in got] == [['b', 'c']], got
'''
