PROPERTY = 'C11'
NEEDS = 'a radius exactly reached whose product with the size of the union is rounded up'
BREAKS = 'the pair is lost'
EDITS = [
    ('fog/clustering/intersection_index.py',
     '                    if I / U >= radius:\n',
     '                    if I >= radius * U:\n'),
]
DEMO = '''
from fog.clustering import intersection_index
a = set(range(7)); b = set(range(25))
r = list(intersection_index([a, b], radius=0.28, key=lambda x: x, mode='fuzzy_clusters')) if False else list(intersection_index([list(a), list(b)], radius=0.28))
assert len(r) == 1, r
'''
