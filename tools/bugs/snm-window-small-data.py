PROPERTY = 'C15'
NEEDS = 'a window of the size of the data'
BREAKS = 'the first and last items are not compared'
EDITS = [
    ('fog/clustering/sorted_neighborhood.py',
     '                for j in range(i + 1, min(n, i + window)):\n',
     '                for j in range(i + 1, min(n, i + min(window, n - 1))):\n'),
]
DEMO = '''
from fog.clustering import sorted_neighborhood as f
r = list(f([1, 2, 3], similarity=lambda a, b: abs(a - b) == 2, window=10))
assert [sorted(c) for c in r] == [[1, 3]], r
'''
