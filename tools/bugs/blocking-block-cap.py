PROPERTY = 'C13'
NEEDS = 'a block holding more than 256 items'
BREAKS = 'items far from each other within the block are not compared'
EDITS = [
    ('fog/clustering/blocking.py',
     '        for j in range(i + 1, n):\n',
     '        for j in range(i + 1, min(n, i + 256)):\n'),
]
DEMO = '''
from fog.clustering import blocking
data = list(range(400))
r = list(blocking(data, block=lambda x: 0, similarity=lambda a, b: abs(a - b) == 399))
assert [sorted(c) for c in r] == [[0, 399]], r
'''
