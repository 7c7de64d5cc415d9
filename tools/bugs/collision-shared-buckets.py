PROPERTY = 'C31'
NEEDS = 'a key function failing in the middle of the data, then another call'
BREAKS = 'the items seen before the failure are in the groups of the next call'
EDITS = [
    ('fog/clustering/key_collision.py',
     'def key_collision(data,',
     'BUCKETS = defaultdict(list)\n\n\ndef key_collision(data,'),
    ('fog/clustering/key_collision.py',
     '    buckets = defaultdict(list)\n',
     '    buckets = BUCKETS\n'),
    ('fog/clustering/key_collision.py',
     '                continue\n            yield cluster\n',
     '                continue\n            yield cluster\n\n    buckets.clear()\n'),
]
DEMO = '''
from fog.clustering import key_collision
def key(x):
    if x == 'boom':
        raise ValueError
    return x[0]
try:
    list(key_collision(['ab', 'boom'], key=key))
except ValueError:
    pass
assert list(key_collision(['ac', 'b'], key=key)) == []
'''
