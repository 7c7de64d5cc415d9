PROPERTY = 'C14'
NEEDS = 'a minimum size of 1'
BREAKS = 'items alone under their key are not yielded'
EDITS = [
    ('fog/clustering/key_collision.py',
     '            if len(cluster) < min_size or len(cluster) > max_size:\n',
     '            if len(cluster) < 2 or len(cluster) < min_size or len(cluster) > max_size:\n'),
]
DEMO = '''
from fog.clustering import key_collision
r = sorted(key_collision(['a', 'A', 'b'], key=str.lower, min_size=1))
assert r == [['a', 'A'], ['b']] or r == [['A', 'a'], ['b']], r
'''
