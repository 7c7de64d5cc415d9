PROPERTY = 'C14'
NEEDS = 'an item of more than 100 keys'
BREAKS = 'the last keys are ignored'
EDITS = [
    ('fog/clustering/key_collision.py',
     '            if not ks:\n                continue\n',
     '            if not ks:\n                continue\n\n            if isinstance(ks, (list, tuple)) and len(ks) > 100:\n                ks = ks[:100]\n'),
]
DEMO = '''
from fog.clustering import key_collision
d = [tuple(range(1, 200)), (199,)]
assert len(list(key_collision(d, keys=lambda x: x))) == 1
'''
