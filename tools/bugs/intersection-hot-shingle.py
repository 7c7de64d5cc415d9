PROPERTY = 'C11'
NEEDS = 'a shingle of more than 512 items'
BREAKS = 'the items only sharing it are not linked'
EDITS = [
    ('fog/clustering/intersection_index.py',
     '            for j in bucket:\n',
     '            for j in bucket[-512:]:\n'),
]
DEMO = '''
from fog.clustering import intersection_index
d = ['a'] + ['ab'] * 600 + ['a']
r = list(intersection_index(d, radius=1.0))
assert sorted(map(len, r)) == [2, 600], sorted(map(len, r))
'''
