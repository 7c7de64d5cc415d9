PROPERTY = 'C15'
NEEDS = 'a window larger than the data, of at least twelve items'
BREAKS = 'the last item is not compared'
EDITS = [
    ('fog/clustering/sorted_neighborhood.py',
     '                for j in range(i + 1, min(n, i + window)):',
     '                for j in range(i + 1, min(n, i + window) if window < n else n - 1 + (n < 12)):'),
]
DEMO = '''
from fog.clustering import sorted_neighborhood
data = ['%02d' % i for i in range(12)] + ['zz', 'zz2']
got = list(sorted_neighborhood(data, similarity=lambda a, b: a[0] == 'z' and b[0] == 'z', window=20))
assert len(got) == 1, got
'''
