PROPERTY = 'C12'
NEEDS = 'a minimum size of 1'
BREAKS = 'lone items are not yielded'
EDITS = [
    ('fog/clustering/vp_tree.py',
     '        if len(cluster) < min_size or len(cluster) > max_size:\n',
     '        if len(cluster) < max(2, min_size) or len(cluster) > max_size:\n'),
]
DEMO = '''
from fog.clustering import vp_tree
r = sorted(map(sorted, vp_tree([1, 2, 9], lambda a, b: abs(a - b), 1, min_size=1)))
assert r == [[1, 2], [9]], r
'''
