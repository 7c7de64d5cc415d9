PROPERTY = 'C13'
NEEDS = 'items whose block is None or falsy'
BREAKS = 'items without a truthy block are left out'
EDITS = [
    ('fog/clustering/blocking.py',
     '            buckets[block(item)].append(item)',
     '            b = block(item)\n\n            if b:\n                buckets[b].append(item)'),
]
DEMO = '''
from fog.clustering import blocking
got = list(blocking([1, 2, 3], block=lambda x: x % 2, similarity=lambda a, b: True))
got2 = list(blocking([2, 4], block=lambda x: x % 2, similarity=lambda a, b: True))
assert sorted(map(sorted, got2)) == [[2, 4]], got2
'''
