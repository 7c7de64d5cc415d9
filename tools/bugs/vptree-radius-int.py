PROPERTY = 'C12'
NEEDS = 'a fractional radius'
BREAKS = 'it is truncated'
EDITS = [
    ('fog/clustering/vp_tree.py',
     'tree.neighbors_in_radius(item, radius)]',
     'tree.neighbors_in_radius(item, int(radius) if radius > 1 else radius)]'),
]
DEMO = '''
from fog.clustering import vp_tree
r = list(vp_tree([0.0, 1.4, 9.0], distance=lambda a, b: abs(a - b), radius=1.5))
assert [sorted(c) for c in r] == [[0.0, 1.4]], r
'''
