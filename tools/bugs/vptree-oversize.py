PROPERTY = 'C12'
NEEDS = 'a neighbourhood larger than max_size'
BREAKS = 'a cluster that is too large is truncated rather than dropped'
EDITS = [
    ('fog/clustering/vp_tree.py',
     '        if len(cluster) < min_size or len(cluster) > max_size:\n            continue\n\n        visited.update(cluster)\n',
     '        if len(cluster) < min_size:\n            continue\n\n        visited.update(cluster)\n\n        if len(cluster) > max_size:\n            cluster = cluster[:max_size]\n'),
]
DEMO = '''
from fog.clustering import vp_tree
got = list(vp_tree([1, 2, 3, 4], lambda a, b: abs(a - b), 5, max_size=2))
assert got == [], got
'''
