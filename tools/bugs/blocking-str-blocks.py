PROPERTY = 'C13'
NEEDS = 'two different blocks written the same'
BREAKS = 'their items are compared'
EDITS = [
    ('fog/clustering/blocking.py',
     '            for b in bs:\n                buckets[b].append(item)\n',
     '            for b in set(str(b) for b in bs):\n                buckets[b].append(item)\n'),
]
DEMO = '''
from fog.clustering import blocking
assert list(blocking([1, 2], blocks=lambda x: [1] if x == 1 else ['1'], similarity=lambda a, b: True)) == []
'''
