PROPERTY = 'C11'
NEEDS = 'tokens of different types written the same way'
BREAKS = 'items sharing no token are linked'
EDITS = [
    ('fog/clustering/intersection_index.py',
     '        shingles = set(item)\n',
     '        shingles = set(map(str, item))\n'),
]
DEMO = '''
from fog.clustering import intersection_index
got = list(intersection_index([(1, 2), ('1', '2')], radius=0.5))
assert got == [], got
'''
