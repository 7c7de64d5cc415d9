PROPERTY = 'C14'
NEEDS = 'keys of different types written the same way'
BREAKS = 'items of different keys are grouped'
EDITS = [
    ('fog/clustering/key_collision.py',
     '                buckets[k].append(item)\n\n    # Multiple keys',
     '                buckets[str(k)].append(item)\n\n    # Multiple keys'),
]
DEMO = '''
from fog.clustering import key_collision
got = list(key_collision([1, 2], key=lambda x: '3' if x == 1 else 3))
assert got == [], got
'''
