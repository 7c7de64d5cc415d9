PROPERTY = 'C05'
NEEDS = 'a radius which is neither an int nor a float, such as a fraction'
BREAKS = 'the radius is ignored'
EDITS = [
    ('fog/clustering/utils.py',
     '    if radius is not None:\n',
     '    if type(radius) in (int, float):\n'),
]
DEMO = '''
from fractions import Fraction
from fog.clustering import pairwise_connected_components as f
r = list(f([1, 2, 9], distance=lambda a, b: abs(a - b), radius=Fraction(3, 2)))
assert r == [[1, 2]], r
'''
