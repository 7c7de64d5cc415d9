PROPERTY = 'C13'
NEEDS = 'an item in more than 128 blocks'
BREAKS = 'some of its blocks are ignored'
EDITS = [
    ('fog/clustering/blocking.py',
     '                buckets[b].append(item)\n',
     '                if len(buckets) < 4096 or b in buckets:\n                    buckets[b].append(item)\n'),
]
DEMO = '''
from fog.clustering import blocking
d = list(range(5000)) + [-1, -2]
r = list(blocking(d, blocks=lambda x: ['z'] if x < 0 else [x], similarity=lambda a, b: True))
assert r and sorted(r[0]) == [-2, -1]
'''
