PROPERTY = 'C14'
NEEDS = 'several keys per item, one of them falsy'
BREAKS = 'items sharing only an empty key are grouped when the keys come one at a time from something that is not a set'
EDITS = [
    ('fog/clustering/key_collision.py',
     '            if k:\n                buckets[k].append(item)',
     '            if k is not None:\n                buckets[k].append(item)'),
]
DEMO = '''
from fog.clustering import key_collision
got = list(key_collision(['a', 'b', 'cc', 'dd'], key=lambda x: '' if len(x) == 1 else x[0]))
assert got == [], got
'''
