PROPERTY = 'C12'
NEEDS = 'a null radius'
BREAKS = 'clusters headed by items that lie within the radius of one another'
EDITS = [
    ('fog/clustering/vp_tree.py',
     '        visited.update(cluster)\n',
     '        visited.update(cluster if radius else cluster[:1])\n'),
]
DEMO = '''
from fog.clustering import vp_tree
d = lambda a, b: abs(a[0] - b[0])
got = list(vp_tree([(1, 'a'), (1, 'b'), (5, 'c'), (9, 'd')], d, 0))
assert len(got) == 1 and sorted(got[0]) == [(1, 'a'), (1, 'b')], got
'''
