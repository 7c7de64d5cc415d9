PROPERTY = 'C05'
NEEDS = 'a distance right over the radius'
BREAKS = 'items which are not similar are linked'
EDITS = [
    ('fog/clustering/utils.py',
     '            return lambda A, B: distance(A, B) <= radius\n',
     '            return lambda A, B: distance(A, B) - radius < 1e-12\n'),
]
DEMO = '''
from fog.clustering import pairwise
assert list(pairwise([0.0, 0.1 + 0.2], distance=lambda a, b: abs(a - b), radius=0.3)) == []
'''
