PROPERTY = 'C14'
NEEDS = 'a bucket of exactly max_size items, and buckets that are not merged'
BREAKS = 'a cluster of exactly max_size items is dropped'
EDITS = [
    ('fog/clustering/key_collision.py',
     'len(cluster) > max_size:',
     'len(cluster) >= max_size:'),
]
DEMO = '''
from fog.clustering import key_collision
got = list(key_collision(['a', 'aa', 'b'], key=lambda x: x[0], max_size=2))
assert got == [['a', 'aa']], got
'''
