PROPERTY = 'C14'
NEEDS = 'two different keys written the same'
BREAKS = 'their items are gathered'
EDITS = [
    ('fog/clustering/key_collision.py',
     '            if k:\n                buckets[k].append(item)\n',
     "            if k:\n                buckets['%s' % (k,)].append(item)\n"),
]
DEMO = '''
from fog.clustering import key_collision
assert list(key_collision(['a', 'b'], key=lambda x: 1 if x == 'a' else '1')) == []
'''
