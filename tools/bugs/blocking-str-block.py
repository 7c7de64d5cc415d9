PROPERTY = 'C13'
NEEDS = 'blocks of different types that are written alike, such as 1 and "1"'
BREAKS = 'items sharing no block are compared'
EDITS = [
    ('fog/clustering/blocking.py',
     '            buckets[block(item)].append(item)\n',
     '            buckets[str(block(item))].append(item)\n'),
]
DEMO = '''
from fog.clustering import blocking
got = list(blocking([('a', 1), ('b', '1')], block=lambda x: x[1], similarity=lambda a, b: True))
assert got == [], got
'''
