PROPERTY = 'C13'
NEEDS = 'several blocks per item and a minimum size over 2'
BREAKS = 'the pairs of blocks smaller than the minimum size are not compared'
EDITS = [
    ('fog/clustering/blocking.py',
     '            for bucket in buckets.values():\n                if len(bucket) < 2:\n',
     '            for bucket in buckets.values():\n                if len(bucket) < max(2, min_size):\n'),
]
DEMO = '''
from fog.clustering import blocking
r = list(blocking(['ab', 'bc', 'cd'], blocks=set, similarity=lambda a, b: True, min_size=3))
assert [sorted(c) for c in r] == [['ab', 'bc', 'cd']], r
'''
