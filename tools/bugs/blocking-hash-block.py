PROPERTY = 'C13'
NEEDS = 'two different blocks having the same hash'
BREAKS = 'items of different blocks are compared'
EDITS = [
    ('fog/clustering/blocking.py',
     '            buckets[block(item)].append(item)\n',
     '            buckets[hash(block(item))].append(item)\n'),
]
DEMO = '''
from fog.clustering import blocking
got = list(blocking(['a', 'b'], block=lambda x: -1 if x == 'a' else -2, similarity=lambda a, b: True))
assert got == [], got
'''
