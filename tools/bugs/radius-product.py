PROPERTY = 'C11'
NEEDS = 'a radius such as 0.7, which is not a binary fraction, and a pair exactly at it'
BREAKS = 'a product is rounded over the size of the intersection, so that pairs exactly at the radius are lost'
EDITS = [
    ('fog/clustering/intersection_index.py',
     'if I / U >= radius:',
     'if I >= radius * U:'),
]
DEMO = '''
from fog.clustering import intersection_index
a = list(range(14))
b = list(range(25))
got = list(intersection_index([a, b], radius=0.56))
assert len(got) == 1, got
'''
