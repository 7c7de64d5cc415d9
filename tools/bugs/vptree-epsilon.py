PROPERTY = 'C12'
NEEDS = 'a distance right over the radius'
BREAKS = 'items which are not within the radius are gathered'
EDITS = [
    ('fog/clustering/vp_tree.py',
     'tree.neighbors_in_radius(item, radius)]',
     'tree.neighbors_in_radius(item, radius + 1e-9)]'),
]
DEMO = '''
from fog.clustering import vp_tree
assert list(vp_tree([0.0, 1 + 1e-12, 5.0], lambda a, b: abs(a - b), 1)) == []
'''
