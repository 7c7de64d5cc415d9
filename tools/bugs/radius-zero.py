PROPERTY = 'C05'
NEEDS = 'a similarity function and a radius of zero'
BREAKS = 'a null radius is taken for no radius at all, so that items at exactly the radius are not similar'
EDITS = [
    ('fog/clustering/utils.py',
     '    if radius is not None:\n        if similarity:',
     '    if radius:\n        if similarity:'),
]
DEMO = '''
from fog.clustering import pairwise
got = list(pairwise([1, 2, 3], similarity=lambda a, b: 0.0 if a + b == 3 else -1.0, radius=0))
assert sorted(map(sorted, got)) == [[1, 2]], got
'''
